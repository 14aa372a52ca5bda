------------------------------ MODULE CliTrace ------------------------------
(* Validates recorded histories of commands.  Contents are numbers given to  *)
(* different contents; "canon" is the number of what the output says, "lib"  *)
(* of what the library produces.                                             *)
EXTENDS Cli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
Map(ps) == [p \in {ps[k][1] : k \in 1..Len(ps)} |-> LET k == CHOOSE k \in 1..Len(ps) : ps[k][1] = p IN ps[k][2]]
Clauses(e) ==
  LET fs2 == Map(e.fs) IN
  CASE e.op = "cmd" ->
         OneIf("status", StatusOk(st, e, e.lib, e.status))
         \o OneIf("files", AfterOk(st, e, e.lib, fs2))
         \o OneIf("result", ~Works(st, e, e.lib) \/ e.status # 0 \/ e.canon = e.lib)
    [] e.op = "new" -> <<>>
    [] OTHER -> <<e.op>>
Init == i = 1 /\ st = [fs |-> <<>>, links |-> <<>>]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.op \notin {"new", "cmd"} THEN st' = st /\ PrintT("@BAD " \o ToJson([line |-> i, bad |-> <<e.op>>]))
           ELSE IF e.op = "new" THEN st' = [fs |-> Map(e.fs), links |-> Map(e.links)]
           ELSE LET bad == Clauses(e) IN
                /\ IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad,
                     detail |-> [refused |-> Refused(st, e), works |-> Works(st, e, e.lib)]]))
                /\ st' = [st EXCEPT !.fs = Map(e.fs)]
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
