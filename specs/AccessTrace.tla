----------------------------- MODULE AccessTrace -----------------------------
(* Validates recorded histories of accesses against Access.  Events carry    *)
(* the result r (or failed), the intervals read from the document's stream   *)
(* (reads) and the number of reads of other streams (xr).                    *)
EXTENDS Access

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>

OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
ReadSet(e) == UNION {Rng(e.reads[k][1], e.reads[k][2]) : k \in 1..Len(e.reads)}
Judge(e, x) ==
  IF e.op \in {"src", "poke", "iter", "new", "file"} THEN <<>>
  ELSE IF e.failed = 1 THEN <<"failed">>
  ELSE (CASE e.op = "dump" -> OneIf("dump", DumpMatches(st, e))
          [] e.op = "open" -> OneIf("info", InfoMatches(x.st, Len(x.st.objs), e))
          [] e.op = "info" -> OneIf("info", InfoMatches(st, e.o, e))
          \* a step on a document with malformed contents, and the same step alone on the document opened afresh
          [] e.op = "same" -> OneIf(e.a, e.r = e.want)
          [] OTHER -> OneIf(e.op, e.r = x.r))
       \o (IF "reads" \in DOMAIN e THEN OneIf("reads", ReadSet(e) \subseteq x.may) \o OneIf("otherstream", e.xr = 0) ELSE <<>>)

Broken == [broken |-> TRUE]
Init == i = 1 /\ st = St0
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.op = "new" THEN st' = St0
           ELSE IF st = Broken THEN st' = st     \* what follows a wrong result is not judged
           ELSE IF e.op \in {"hang", "crash", "refuse"} THEN
                /\ IF e.op = "refuse" /\ e.ok = 0 THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> <<e.op>>]))
                /\ st' = st
           ELSE LET x == Exp(st, e)
                    bad == Judge(e, x) IN
                /\ IF bad = <<>> THEN TRUE
                   ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad,
                          detail |-> [r |-> x.r, extra |-> IF "reads" \in DOMAIN e THEN ReadSet(e) \ x.may ELSE {}]]))
                /\ st' = IF bad = <<>> THEN x.st ELSE Broken
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
