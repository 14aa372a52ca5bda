---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded sessions.  "new" carries the results every user gets   *)
(* alone in a fresh process; "step" the result in the session, what all      *)
(* schema objects define afterwards, what the search path and the tables     *)
(* hold, and whether the arguments are as they were.                         *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
Clauses(e) ==
  CASE e.op = "step" ->
         LET k == st.pc[e.a] + 1 IN
         OneIf("result", k <= Len(st.alone[e.a]) /\ e.r = st.alone[e.a][k])
         \o OneIf("schemas", IsPrefix(st.defs, e.defs))
         \o OneIf("tables", e.tables = st.tables)
         \o OneIf("arguments", e.args = 1)
    [] e.op = "keep" ->         \* the same data given to the encoder twice
         OneIf("arguments", e.args = 1) \o OneIf("twice", e.r[1] = e.r[2])
    [] e.op = "later" -> OneIf("later", e.same = 1)
    [] OTHER -> <<e.op>>
Init == i = 1 /\ st = [alone |-> <<>>, pc |-> <<>>, defs |-> <<>>, tables |-> 0]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.op = "new" THEN st' = [alone |-> e.alone, pc |-> [a \in 1..Len(e.alone) |-> 0], defs |-> <<>>, tables |-> e.tables]
           ELSE LET bad == Clauses(e) IN
                /\ IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))
                /\ st' = IF e.op = "step" THEN [st EXCEPT !.pc[e.a] = @ + 1, !.defs = e.defs, !.tables = e.tables] ELSE st
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
