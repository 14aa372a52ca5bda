----------------------------- MODULE EqualTrace -----------------------------
(* Validates recorded comparisons against Equal.  Rows of e.rows are         *)
(* <<a, b, a == b, a != b>> (objects), those of e.others are                 *)
(* <<a, result of comparing with something else>>; 2 is an exception.        *)
EXTENDS Equal

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
Docs(e) == [k \in 1..Len(e.docs) |-> [sc |-> e.sch[e.docs[k].so], so |-> e.docs[k].so, s |-> e.docs[k].s,
                                       ns |-> DocNodes(e.docs[k].d, e.docs[k].s, Schemas[e.sch[e.docs[k].so]])]]
Row(docs, e, r) ==
  IF r[3] = 2 \/ r[4] = 2 THEN FALSE
  ELSE /\ r[4] = 1 - r[3]
       /\ ObjOpen(docs, e.objs, r[1], r[2]) \/ r[3] = (IF ObjEq(docs, e.sch, e.objs, r[1], r[2]) THEN 1 ELSE 0)
Wrong(docs, e) == {k \in 1..Len(e.rows) : ~Row(docs, e, e.rows[k])}
Clauses(e) ==
  CASE e.op = "eq" -> TLCEval(LET docs == TLCEval(Docs(e)) IN
         IF \E k \in 1..Len(docs) : \E j \in 1..Len(docs[k].ns) : IsErr(docs[k].ns[j])
         THEN Assert(FALSE, <<"generated document is not well-formed", i>>)
         ELSE OneIf("nodes", \A k \in 1..Len(docs) : e.docs[k].n = Len(docs[k].ns))
              \o LET w == Wrong(docs, e) IN
                 IF w = {} THEN <<>> ELSE <<"equal">>)
              \o OneIf("others", \A k \in 1..Len(e.others) : e.others[k][2] = 0)
    [] OTHER -> <<e.op>>
Detail(e) == IF e.op # "eq" THEN <<>>
             ELSE LET docs == Docs(e)  w == Wrong(docs, e) IN
                  IF w = {} THEN <<>> ELSE LET r == e.rows[CHOOSE k \in w : TRUE] IN <<ToString(e.objs[r[1]]), ToString(e.objs[r[2]]), ToString(r)>>
Init == i = 1 /\ cls = Classes
Next == /\ i <= Len(Trace) /\ i' = i + 1 /\ cls' = cls
        /\ LET bad == Clauses(Trace[i]) IN
           IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad, detail |-> Detail(Trace[i])]))
Spec == Init /\ [][Next]_<<i, cls>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
