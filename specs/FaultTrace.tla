------------------------------ MODULE FaultTrace ------------------------------
(* Validates recorded histories with failing streams against Fault.  Events  *)
(* carry failed (the access raised) and hit (a call of the stream raised).   *)
EXTENDS Fault

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, gone
vars == <<i, st, gone>>

OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
Judge(e, x) ==
  IF e.op \in {"src", "iter"} THEN OneIf("failed", e.op = "src" \/ e.failed = 0)
  ELSE IF e.failed = 1 THEN OneIf("failed", MayFail(st, e, e.hit = 1, gone))
  ELSE CASE e.op = "dump" -> OneIf("dump", DumpMatches(st, e))
         [] e.op = "open" -> OneIf("info", InfoMatches(x.st, Len(x.st.objs), e))
         [] e.op = "info" -> OneIf("info", InfoMatches(st, e.o, e))
         [] OTHER -> OneIf(e.op, e.r = x.r)

Broken == [broken |-> TRUE]
Report(cs) == PrintT("@BAD " \o ToJson([line |-> i, bad |-> cs]))
Init == i = 1 /\ st = St0 /\ gone = FALSE
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.op = "new" THEN st' = St0 /\ gone' = FALSE
           ELSE IF st = Broken THEN UNCHANGED <<st, gone>>     \* what follows a wrong result is not judged
           ELSE IF e.op = "shut" THEN st' = st /\ gone' = TRUE
           ELSE IF e.op \in {"hang", "crash"} THEN Report(<<e.op>>) /\ st' = Broken /\ gone' = gone
           ELSE IF e.op = "whole" THEN
             \* an operation on a whole document, text or file: r is what it gave, want what it gives without a failure
             /\ LET bad == IF e.failed = 1 THEN OneIf("failed", e.hit = 1) ELSE OneIf(e.a, e.r = e.want) IN
                IF bad = <<>> THEN TRUE ELSE Report(bad)
             /\ UNCHANGED <<st, gone>>
           ELSE LET x == Exp(st, e)
                    bad == Judge(e, x) IN
                /\ IF bad = <<>> THEN TRUE ELSE Report(bad)
                /\ gone' = gone
                /\ st' = IF bad # <<>> THEN Broken ELSE IF e.op \notin {"src", "open", "iter"} /\ e.failed = 1 THEN Failed(st, e) ELSE x.st
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
