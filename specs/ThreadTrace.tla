----------------------------- MODULE ThreadTrace -----------------------------
(* Validates recorded operations of real threads on a thread-aware file.     *)
EXTENDS EbmlTree
T == INSTANCE ThreadFile

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
(* a "file" event: a new thread-aware file on the content c; n threads; thread
   e.by has its stream at position e.at (-1: not opened), wrapped or not *)
NewFile(e) == [c |-> e.c, pos |-> [t \in 1..e.n |-> IF t = e.by THEN e.at ELSE T!Fresh], by |-> IF e.wrapped = 1 THEN e.by ELSE 0,
               ns |-> IF e.sc = 0 THEN <<>> ELSE DocNodes(e.c, 0, Schemas[e.sc])]
Clauses(e) ==
  CASE e.op \in {"file", "begin"} -> <<>>
    [] e.op = "do" -> LET x == T!Do(st.c, st.pos, e.t, e) IN
         \* what began before the end of a closeAll() may have been done before it
         (IF e.o = 1 /\ e.a \in T!Accesses \cup {"closed"} /\ st.pos[e.t] \in {T!Ended, T!Closed} THEN <<>>
          ELSE OneIf(e.a, T!Right(x[1], [ok |-> e.ok, v |-> e.v])))
         \o (IF e.a = "parse" /\ x[1].ok = 3 THEN OneIf("parse", e.nodes = st.ns) ELSE <<>>)
    \* the stream that was wrapped is the one the wrapping thread uses
    [] e.op = "orig" -> OneIf("wrapped", LET p == st.pos[st.by] IN
          IF p >= 0 THEN e.closed = 0 /\ e.tell = p ELSE IF p \in {T!Closed, T!Ended} THEN e.closed = 1 ELSE TRUE)
    [] e.op = "content" -> OneIf("content", e.c = st.c)
    [] e.op = "mode" -> OneIf("mode", IF T!Writes(e.mode) THEN e.ok = 0 /\ e.touched = 0
                                      ELSE e.touched = 0 /\ (e.valid = 1 => e.ok = 1))
    [] e.op = "wrap" -> OneIf("wrap", e.ok = e.want)
    [] OTHER -> <<e.op>>
Init == i = 1 /\ st = [c |-> <<>>, pos |-> <<>>, by |-> 0, ns |-> <<>>]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i]
               bad == Clauses(e) IN
           /\ IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))
           /\ st' = IF e.op = "file" THEN NewFile(e)
                    ELSE IF e.op = "begin" THEN [st EXCEPT !.pos = T!Begun(st.pos)]
                    ELSE IF e.op = "do" THEN [st EXCEPT !.pos = T!Do(st.c, st.pos, e.t, e)[2]] ELSE st
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
