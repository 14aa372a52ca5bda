---------------------------- MODULE RegistryTrace ----------------------------
(* Validates recorded histories of loading, searching and listing.           *)
(* Events carry the object returned (r, 0: failed), the versions all schema  *)
(* objects show (vs) and the files they say they come from (froms), and      *)
(* whether anything changed that must not: same = 1 if not.                  *)
EXTENDS Registry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
SetOf(s) == {s[k] : k \in 1..Len(s)}
Clauses(e, x) ==
  CASE e.op \in {"load", "parse"} ->
         OneIf("result", e.r = x.r)
         \o OneIf("objects", Len(e.vs) = Len(x.st.objs) /\ \A k \in 1..Len(x.st.objs) : e.vs[k] = x.st.objs[k].v)
         \o OneIf("files", \A k \in 1..Len(e.froms) : k <= Len(x.st.objs) => e.froms[k] = x.st.objs[k].f)
         \o OneIf("documents", e.docs = 1)
         \o OneIf("registry", x.r # 0 \/ e.regsame = 1)
         \o OneIf("arguments", e.same = 1)
    [] e.op = "list" ->
         LET paths == IF e.given = 1 THEN e.paths ELSE IF e.given = 2 THEN e.paths \o st.sp ELSE st.sp
             names == {n \in SetOf(e.names) : Found(st, n, paths, 1) # <<>>} IN
         OneIf("failed", e.r = 1)
         \o OneIf("names", {y.f : y \in SetOf(e.found)} = names /\ Len(e.found) = Cardinality(names))
         \o OneIf("found", \A y \in SetOf(e.found) : y.at = Found(st, y.f, paths, 1))
         \o OneIf("arguments", e.same = 1)
    [] e.op \in {"write", "chdir", "path", "new", "start"} -> <<>>
    [] OTHER -> <<e.op>>
Broken == [broken |-> TRUE]
Init == i = 1 /\ st = St0
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.op = "new" THEN st' = St0
           ELSE IF st = Broken THEN st' = st
           ELSE LET x == Do(st, e, IF "r" \in DOMAIN e THEN e.r ELSE 0)
                    bad == Clauses(e, x) IN
                /\ IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad, detail |-> [want |-> x.r]]))
                /\ st' = IF bad = <<>> THEN x.st ELSE Broken
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
