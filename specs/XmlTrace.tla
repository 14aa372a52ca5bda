------------------------------ MODULE XmlTrace ------------------------------
(* Validates recorded conversions between EBML and XML (C19, C20).           *)
EXTENDS XmlMap, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
ChkRt(e) ==
  LET SS == Schemas[e.sc]
      ns == DocNodes(e.src, 0, SS) IN
  IF ~Tiles(SS, ns, 0, Len(e.src)) \/ ~\A k \in 1..Len(ns) : IsMaster(SS, ns[k].id) \/ ~IsBad(ns[k].v)
  THEN Assert(FALSE, <<"generated document is not valid", i>>)
  ELSE IF e.r # 1 THEN <<"failed">>
  ELSE LET ms == DocNodes(e.dst, 0, SS) IN
       IF ~\A k \in 1..Len(ms) : ~IsErr(ms[k]) THEN <<"wellformed">>
       ELSE OneIf("wellformed", Tiles(SS, ms, 0, Len(e.dst)))
            \o OneIf("roundtrip", SameDoc(SS, ns, ms, e.o))
            \o OneIf("returned", e.n = Len(e.dst))
            \o OneIf("unchanged", e.same = 1)
Out(e) == SubSeq(e.all, Len(e.pre) + 1, e.end)
ChkX2e(e) ==
  LET SS == Schemas[e.sc]
      want == WantedAll(SS, e.xs, e.o, e.doc)
      bad == IsXRefused(want) \/ e.doc = -1 IN
  OneIf("before", IsPrefix(e.pre, e.all) /\ e.same = 1)
  \o (IF bad THEN OneIf("refused", e.r = 0)
      ELSE IF e.r = 0 THEN OneIf("accepted", MayNotFit(e.xs, DefaultWidth(e.o)) \/ e.novalue = 1 \/ (e.o.sl # -1 /\ e.o.sl \notin 1..8))
      ELSE LET ns == DocNodes(Out(e), 0, SS) IN
           IF \E k \in 1..Len(ns) : IsErr(ns[k]) THEN <<"wellformed">>
           ELSE OneIf("wellformed", Tiles(SS, ns, 0, Len(Out(e))))
                \o OneIf("returned", e.n = e.end - Len(e.pre))
                \o (IF SayWanted(ns, want) THEN OneIf("width", WidthsOk(ns, want)) \o OneIf("size", SizesOk(ns, want))
                    ELSE <<"written">>))
Clauses(e) ==
  CASE e.op = "rt" -> ChkRt(e)
    [] e.op = "x2e" -> ChkX2e(e)
    [] e.op = "later" -> OneIf("later", e.same = 1)
    [] OTHER -> <<e.op>>
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET bad == Clauses(Trace[i]) IN IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))
Spec == Init /\ [][Next]_<<i>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
