----------------------------- MODULE RegistryMC -----------------------------
(* Histories of loading in a small file system: two folders, one file name.  *)
EXTENDS Registry, Json, IOUtils

Steps == atoi(IOEnv.STEPS)
F == "x.xml"
P1 == [k |-> "dir", d |-> "p1"]
Cwd == [k |-> "cwd", d |-> ""]
Gone == [k |-> "none", d |-> ""]
VARIABLES st, hist, last
vars == <<st, hist, last>>
view == <<st, last, Len(hist)>>
Loads == {[op |-> "load", key |-> "x.xml", bare |-> 1, d |-> "", f |-> F, reload |-> r, given |-> 0, paths |-> <<>>] : r \in {0, 1}}
         \cup {[op |-> "load", key |-> "/" \o d \o "/x.xml", bare |-> 0, d |-> d, f |-> F, reload |-> r, given |-> 0, paths |-> <<>>] : r \in {0, 1}, d \in {"c1", "p1"}}
         \cup {[op |-> "load", key |-> "../c1/x.xml", bare |-> 0, d |-> "c1", f |-> F, reload |-> 0, given |-> 0, paths |-> <<>>]}
Parses == {[op |-> "parse", key |-> k, own |-> 0, v |-> v, reload |-> r] : k \in {"x.xml", "doc"}, v \in {2, -1}, r \in {0, 1}}
Others == {[op |-> "write", d |-> d, f |-> F, v |-> v] : d \in {"c1", "p1"}, v \in {0, 2, -1}}
          \cup {[op |-> "chdir", d |-> d] : d \in {"c1", "c2"}}
Init == /\ st = [St0 EXCEPT !.fs = Put(Put(Empty, "c1/x.xml", 1), "p1/x.xml", 1), !.cwd = "c2", !.sp = <<Cwd, Gone, P1>>]
        /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < Steps
        /\ \E e \in Loads \cup Parses \cup Others : \E g \in (IF IOEnv.EXPORT = "1" THEN {0} ELSE 0..Len(st.objs)) :
             LET x == Do(st, e, g) IN
             /\ e.op = "write" => Content(st, Join(e.d, e.f)) # e.v
             /\ e.op = "chdir" => st.cwd # e.d
             /\ st' = x.st /\ hist' = Append(hist, e)
             /\ last' = [e |-> e, was |-> st, r |-> x.r]
Spec == Init /\ [][Next]_vars
Loading == last # <<>> /\ last.e.op \in {"load", "parse"}
(* C17: without asking for a reload, the object of the last successful load under the name *)
Same == (Loading /\ last.e.reload = 0 /\ Bound(last.was, last.e.key) # 0) => last.r = Bound(last.was, last.e.key)
(* a reload is always new, and current; later loads give it *)
Fresh == (Loading /\ last.e.reload = 1 /\ last.r # 0) =>
   /\ last.r = Len(st.objs) /\ last.r > Len(last.was.objs) /\ Bound(st, last.e.key) = last.r
   /\ st.objs[last.r].v = (IF last.e.op = "parse" THEN last.e.v ELSE Content(st, st.objs[last.r].f))
(* a failure leaves no trace *)
Clean == (Loading /\ last.r = 0) => st = last.was
(* a file has one schema, under whatever name *)
OneEach == \A k \in DOMAIN st.bind : st.bind[k].f # "" => Bound(st, k) = st.file[st.bind[k].f]
(* objects never change *)
Frozen == last # <<>> => SubSeq(st.objs, 1, Len(last.was.objs)) = last.was.objs
(* C18: what is loaded anew is the first that is found *)
First == (Loading /\ last.e.op = "load" /\ last.e.bare = 1 /\ last.r > Len(last.was.objs)) =>
   st.objs[last.r].f = (IF IsFile(last.was, Join(last.was.cwd, F)) THEN Join(last.was.cwd, F) ELSE "p1/x.xml")
Listed == Found(st, F, st.sp, 1) # <<>> /\ ~IsFile(st, Join(st.cwd, F)) =>
   LET x == DoLoad(st, [op |-> "load", key |-> "?", bare |-> 1, d |-> "", f |-> F, reload |-> 1, given |-> 0, paths |-> <<>>], 0) IN
   x.r # 0 /\ x.st.objs[x.r].f = Found(st, F, st.sp, 1)[1]
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps /\ Loading THEN PrintT("@CASE " \o ToJson(hist)) ELSE TRUE
=============================================================================
