-------------------------------- MODULE CliMC --------------------------------
(* All short histories of commands in a small folder.                        *)
EXTENDS Cli, Json, IOUtils

Steps == atoi(IOEnv.STEPS)
(* contents: "doc" EBML, "xml" XML, "junk" neither, "schema", "view", "listing" *)
Lib(tool, x) == CASE tool = "list" -> "listing"
                  [] tool = "ebml2xml" /\ x = "doc" -> "xml"
                  [] tool = "xml2ebml" /\ x = "xml" -> "doc"
                  [] tool = "view" /\ x = "doc" -> "view"
                  [] OTHER -> "none"
St0 == [fs |-> [p \in {"d", "x", "junk", "s", "dir"} |->
                 CASE p = "d" -> "doc" [] p = "x" -> "xml" [] p = "junk" -> "junk" [] p = "s" -> "schema" [] OTHER -> "folder"],
        links |-> ("l" :> "d")]
VARIABLES st, hist, last
vars == <<st, hist, last>>
view == <<st, last, Len(hist)>>
Ins == {"d", "x", "junk", "gone", "o", "l"}
Outs == {"", "o", "d", "l", "dir", "s"}
Cmds == [tool : {"ebml2xml", "xml2ebml", "view"}, in : Ins, sch : {"s", "?"}, out : Outs, c : {0, 1}, nodir : {0}]
        \cup [tool : {"list"}, in : {""}, sch : {""}, out : {"", "o"}, c : {0}, nodir : {0}]
(* folders and failures by name in this model *)
F2(fs) == [p \in DOMAIN fs |-> IF fs[p] = "folder" THEN Folder ELSE 0]
StN(s) == [fs |-> F2(s.fs), links |-> s.links]
LibOf(e) == LET r == Lib(e.tool, IF e.in # "" /\ Exists(st, e.in) THEN st.fs[Real(st, e.in)] ELSE "")
            IN r
LibN(r) == IF r = "none" THEN -1 ELSE 1
Partial == "partial"                     \* what a failing conversion may leave
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == st = St0 /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < Steps
        /\ \E e \in Cmds :
             LET r == LibOf(e)
                 n == LibN(r)
                 s == StN(st)
                 o == IF e.out = "" THEN "" ELSE Real(st, e.out) IN
             /\ e.c = 1 => e.out # ""
             /\ \/ /\ Refused(s, e) /\ st' = st
                   /\ last' = [e |-> e, was |-> st, status |-> 1, so |-> "", kind |-> "refused"]
                \/ /\ Fails(s, e, n)
                   /\ st' \in (IF e.out = "" \/ Unwritable(s, e) THEN {st} ELSE {st, [st EXCEPT !.fs = Put(@, o, Partial)]})
                   /\ last' = [e |-> e, was |-> st, status |-> 1, so |-> "", kind |-> "failed"]
                \/ /\ Works(s, e, n)
                   /\ st' = (IF e.out = "" THEN st ELSE [st EXCEPT !.fs = Put(@, o, r)])
                   /\ last' = [e |-> e, was |-> st, status |-> 0, so |-> IF e.out = "" THEN r ELSE "", kind |-> "worked"]
             /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Ran == last # <<>>
(* the outcomes exclude each other, and every command has one *)
Total == \A e \in Cmds : LET s == StN(st)
                             n == LibN(LibOf(e)) IN
   Cardinality({k \in 1..3 : (k = 1 /\ Refused(s, e)) \/ (k = 2 /\ Fails(s, e, n)) \/ (k = 3 /\ Works(s, e, n))}) = 1
(* an existing file changes only if it is the output, overwriting was requested and it is no input *)
Untouched == Ran => \A p \in DOMAIN last.was.fs :
   st.fs[p] # last.was.fs[p] => /\ last.e.out # "" /\ Real(last.was, last.e.out) = p
                                /\ last.e.c = 1 \/ last.e.tool = "list"
                                /\ \A q \in Inputs(last.e) : Real(last.was, q) # p
                                /\ last.was.fs[p] # "folder"
(* only the output is created, and not by a refused command *)
Created == Ran => \A p \in DOMAIN st.fs \ DOMAIN last.was.fs :
   p = Real(last.was, last.e.out) /\ last.kind # "refused"
Refusal == Ran /\ last.e.tool # "list" /\ (~Exists(last.was, last.e.in) \/ last.e.sch = "?") => last.status # 0 /\ st = last.was
(* with no link to follow, the inputs of a history survive unless asked for *)
Inputs0 == (\A k \in 1..Len(hist) : hist[k].c = 0) => \A p \in DOMAIN St0.fs : st.fs[p] = St0.fs[p]
(* there and back: EBML to XML to EBML is EBML again *)
Result == Ran /\ last.status = 0 => LET x == IF last.e.out = "" THEN last.so ELSE st.fs[Real(st, last.e.out)] IN
   x = Lib(last.e.tool, IF last.e.in = "" THEN "" ELSE last.was.fs[Real(last.was, last.e.in)])
AfterHolds == Ran => AfterOk(StN(last.was), last.e, IF last.kind = "worked" THEN 1 ELSE -1, StN(st).fs)
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps THEN PrintT("@CASE " \o ToJson(hist)) ELSE TRUE
=============================================================================
