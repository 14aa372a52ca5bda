------------------------------ MODULE TreeTrace ------------------------------
(* Validates what ebmlite reports about documents (C01, C02, C08..C10, C22,  *)
(* C23, C26, C27) against the reference reader EbmlTree.                     *)
(* A "doc" event sets the current document; the following events are         *)
(* observations of it (or of variants of it).                                *)
EXTENDS EbmlTree, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, cur
vars == <<i, cur>>

NoDoc == [sc |-> 1, d |-> <<>>, s |-> 0, ns |-> <<>>]
S == Schemas[cur.sc]

MkDoc(e) == LET ns == DocNodes(e.d, e.s, Schemas[e.sc]) IN
   IF e.wf = 1 /\ ~Tiles(Schemas[e.sc], ns, e.s, Len(e.d))
   THEN Assert(FALSE, <<"generated document is not well-formed", i>>)
   ELSE [sc |-> e.sc, d |-> e.d, s |-> e.s, ns |-> ns]

(* The nodes a reader shows: all, or those behind the header *)
RECURSIVE Tail2(_, _)
Shown(c, hdr) == IF hdr = 1 THEN c.ns
                 ELSE IF IsHeader(Schemas[c.sc], Elem(c.d, c.s + 1, Schemas[c.sc]))
                      THEN SubSeq(c.ns, After(c.ns, 1), Len(c.ns)) ELSE c.ns
Tail2(a, b) == IF b = 0 THEN a ELSE Tail2(Tail(a), b - 1)

StructOf(n) == IF IsErr(n) THEN <<n.d, -1>> ELSE <<n.d, n.id, n.off, n.poff, n.sz>>
ValOf(n) == IF IsErr(n) THEN <<>> ELSE n.v
(* Names of the aspects in which the observation differs *)
Diff(exp, obs) ==
  IF Len(exp) # Len(obs) \/ \E k \in 1..Len(exp) : StructOf(exp[k]) # StructOf(obs[k]) THEN <<"structure">>
  ELSE IF \E k \in 1..Len(exp) : ValOf(exp[k]) # ValOf(obs[k]) THEN <<"value">> ELSE <<>>

-----------------------------------------------------------------------------
(* C02: raw bytes of every element, in preorder *)
RawOk(ns, d, raw, rawv) ==
  /\ Len(raw) = Len(ns) /\ Len(rawv) = Len(ns)
  /\ \A k \in 1..Len(ns) :
       /\ raw[k] = SubSeq(d, ns[k].off + 1, ns[k].poff + ns[k].sz)
       /\ rawv[k] = SubSeq(d, ns[k].poff + 1, ns[k].poff + ns[k].sz)

-----------------------------------------------------------------------------
(* C10: the document cut after `cut' bytes.  obs from index j on against the
   siblings ix (indices into ns) at depth k; result: next index of obs, or 0. *)
RECURSIVE CutLv(_, _, _, _, _, _)
CutLv(ns, ix, obs, j, k, cut) ==
  LET whole == ix # <<>> /\ ns[Head(ix)].poff + ns[Head(ix)].sz <= cut IN
  IF j > Len(obs) \/ obs[j].d < k THEN (IF whole THEN 0 ELSE j)
  ELSE IF obs[j].d > k THEN 0
  ELSE IF IsErr(obs[j]) THEN (IF whole \/ ix = <<>> THEN 0 ELSE j + 1)
  ELSE IF ix = <<>> THEN 0
  ELSE LET h == Head(ix) IN
    IF whole THEN
      LET n == After(ns, h) - h IN
      IF j + n - 1 <= Len(obs) /\ \A x \in 0..(n - 1) : obs[j + x] = ns[h + x]
      THEN CutLv(ns, Tail(ix), obs, j + n, k, cut) ELSE 0
    ELSE IF obs[j].off # ns[h].off \/ obs[j].id # ns[h].id THEN 0
    ELSE LET j2 == CutLv(ns, ChildrenOf(ns, h), obs, j + 1, k + 1, cut) IN
         IF j2 = 0 THEN 0
         ELSE IF j2 > Len(obs) \/ obs[j2].d < k THEN j2
         ELSE IF obs[j2].d = k /\ IsErr(obs[j2]) THEN j2 + 1 ELSE 0
CutOk(c, obs, cut) == CutLv(c.ns, TopLevel(c.ns), obs, 1, 1, cut) = Len(obs) + 1

-----------------------------------------------------------------------------
(* C27: any bytes.  Result: next index of obs, or 0 (wrong). *)
RECURSIVE AnyLv(_, _, _, _, _, _, _)
AnyLv(SS, d, p, end, obs, j, k) ==
  LET over == j > Len(obs) \/ obs[j].d < k
      e == IF p < end THEN Elem(d, p, SS) ELSE NoElem("end")
      h == Hdr(d, p)
      pay == Payload(d, e.poff, e.sz)
      short == e.poff + e.sz - 1 > Len(d)
      opaque == short \/ IsBad(DecodeAs(Ty(SS, e.id), pay)) IN
  IF ~over /\ obs[j].d > k THEN 0
  ELSE CASE e.st = "end" -> IF over THEN j ELSE 0
    [] e.st = "eof" -> IF over THEN j ELSE IF IsErr(obs[j]) THEN j + 1 ELSE 0
    [] e.st = "cut" -> \* ends, fails, or shows the truncated element (once)
         IF over THEN j
         ELSE IF IsErr(obs[j]) THEN j + 1
         ELSE IF obs[j].off # p - 1 \/ h.id # obs[j].id THEN 0
         ELSE IF j + 1 > Len(obs) \/ obs[j + 1].d < k THEN j + 1
         ELSE IF obs[j + 1].d = k THEN (IF IsErr(obs[j + 1]) THEN j + 2 ELSE 0)
         ELSE IF IsErr(obs[j + 1]) THEN j + 2 ELSE 0
    [] e.st \in {"bad", "unk", "err"} -> IF ~over /\ IsErr(obs[j]) THEN j + 1 ELSE 0
    [] e.st = "ok" ->
         IF over THEN 0                                     \* dropped silently
         ELSE IF IsErr(obs[j]) THEN
              \* only the pre-read payload of this very element may fail
              (IF (opaque /\ e.id \in SS.ids /\ SS.pc[e.id]) \/ ~e.sure THEN j + 1 ELSE 0)
         ELSE IF obs[j].off # p - 1 \/ obs[j].id # e.id \/ obs[j].poff # e.poff - 1 THEN 0
         ELSE IF e.sure /\ obs[j].sz # e.sz THEN 0
         ELSE IF ~e.sure /\ obs[j].sz < 0 THEN 0
         ELSE IF ~IsMaster(SS, e.id) THEN
              (IF opaque \/ obs[j].v = DecodeAs(Ty(SS, e.id), pay)
               THEN AnyLv(SS, d, e.poff + obs[j].sz, end, obs, j + 1, k) ELSE 0)
         ELSE LET j2 == AnyLv(SS, d, e.poff, e.poff + obs[j].sz, obs, j + 1, k + 1) IN
              IF j2 = 0 THEN 0 ELSE AnyLv(SS, d, e.poff + obs[j].sz, end, obs, j2, k)
AnyOk(c, obs) == AnyLv(Schemas[c.sc], c.d, c.s + 1, Len(c.d) + 1, obs, 1, 1) = Len(obs) + 1

-----------------------------------------------------------------------------
IdSeq(ns) == [k \in 1..Len(ns) |-> <<ns[k].id, ns[k].off>>]
DepthAtMost(ns, k) == SelectSeq(ns, LAMBDA n : n.d <= k)
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>

(* Picking children: each, counted from the end, slices, and outside *)
At(ns, is) == [k \in 1..Len(is) |-> <<ns[is[k]].id, ns[is[k]].off>>]
NoPick == <<<<-1, -1>>>>
PicksOk(w, p) ==
  LET n == Len(w) IN
  /\ p.each = w
  /\ p.back = [k \in 1..n |-> w[n + 1 - k]]
  /\ p.slice = SubSeq(w, 2, n - 1)
  /\ p.odd = [k \in 1..(n \div 2) |-> w[2 * k]]
  /\ p.out = <<NoPick, NoPick, NoPick>>
Asked(got, w) == (got = NoPick) \/ (got = w)
(* The listing and the XML form of the nodes ns (of the document, or of one
   element at depth 0), with the details o asked for *)
OptOf(on, x) == IF on = 1 THEN x ELSE -1
ShownBin(codec, v) == IF codec = "ignore" THEN <<5>> ELSE v
ListRows(SS, ns) == [k \in 1..Len(ns) |->
        <<ns[k].d, ns[k].id, ns[k].off, ns[k].sz, IF IsMaster(SS, ns[k].id) THEN Len(ChildrenOf(ns, k)) ELSE -1>>]
ListVals(SS, ns, o) == [k \in 1..Len(ns) |->
        LET ty == Ty(SS, ns[k].id) IN
        IF ty \in {"void", "master"} THEN <<>>
        ELSE IF ty \in {"bin", "unknown"} THEN ShownBin(IF o.values = 1 THEN o.list ELSE "ignore", ns[k].v)
        ELSE IF o.values = 1 THEN ns[k].v ELSE <<>>]
XmlRows(SS, ns, o) == [k \in 1..Len(ns) |->
        <<ns[k].d, IF o.ids = 1 \/ ns[k].id \in SS.ids THEN ns[k].id ELSE -3, OptOf(o.offsets, ns[k].off),
          OptOf(IF Ty(SS, ns[k].id) = "void" THEN 1 ELSE o.sizes, ns[k].sz)>>]
XmlVals(SS, ns, o) == [k \in 1..Len(ns) |->
        LET ty == Ty(SS, ns[k].id) IN
        IF ty \in {"void", "master"} THEN <<>> ELSE IF ty \in {"bin", "unknown"} THEN ShownBin(o.codec, ns[k].v) ELSE ns[k].v]
XmlHas(SS, ns, o) == [k \in 1..Len(ns) |->
        <<o.offsets, IF Ty(SS, ns[k].id) = "void" THEN 1 ELSE o.sizes, o.ids, o.types>>]
ChkShown(SS, ns, e, o) ==
  OneIf("listing", e.listing = ListRows(SS, ns))
  \o OneIf("listingvalues", e.lvals = ListVals(SS, ns, o))
  \o OneIf("xml", e.xml = XmlRows(SS, ns, o))
  \o OneIf("xmlvalues", e.xvals = XmlVals(SS, ns, o))
  \o OneIf("details", e.has = XmlHas(SS, ns, o))
(* One element by itself: its descendants, children, dump, listing and XML *)
SubOk(SS, ns, x, e, o) ==
  LET below == SubSeq(ns, x + 1, After(ns, x) - 1)
      all == [k \in 1..(After(ns, x) - x) |-> [ns[x + k - 1] EXCEPT !.d = @ - ns[x].d]] IN
  /\ e.flat = IdSeq(below)
  /\ e.one = (IF IsMaster(SS, ns[x].id) THEN At(ns, ChildrenOf(ns, x)) ELSE <<>>)
  /\ DumpVal(SS, ns, x, e.dump)
  /\ ChkShown(SS, all, e, o) = <<>>
ChkViews(c, e) ==
  LET ns == Shown(c, e.hdr)
      SS == Schemas[c.sc] IN
  OneIf("index", e.index = [k \in 1..Len(TopLevel(ns)) |-> <<ns[TopLevel(ns)[k]].id, ns[TopLevel(ns)[k]].off>>])
  \o OneIf("picks", LET ms == SelectSeq([x \in 1..Len(ns) |-> x], LAMBDA x : IsMaster(SS, ns[x].id)) IN
        /\ Len(e.picks.of) = Len(ms)
        /\ \A k \in 1..Len(ms) : PicksOk(At(ns, ChildrenOf(ns, ms[k])), e.picks.of[k])
        /\ LET w == At(ns, TopLevel(ns)) n == Len(w) IN
             \* counting from the end, and slices, may be refused by documents
             /\ Asked(e.picks.last, IF n = 0 THEN <<>> ELSE <<w[n]>>) /\ (n = 0 => e.picks.last = NoPick)
             /\ Asked(e.picks.slice, SubSeq(w, 2, n - 1))
             /\ e.picks.out = <<NoPick, NoPick>>)
  \o OneIf("lengths", e.lens = <<Len(TopLevel(ns))>> \o
        [k \in 1..Len(SelectSeq([x \in 1..Len(ns) |-> x], LAMBDA x : IsMaster(SS, ns[x].id))) |->
            Len(ChildrenOf(ns, SelectSeq([x \in 1..Len(ns) |-> x], LAMBDA x : IsMaster(SS, ns[x].id))[k]))])
  \o OneIf("flatiter", \A k \in 1..Len(e.flat) :
        e.flat[k].ids = IdSeq(IF e.flat[k].depth < 0 THEN ns ELSE DepthAtMost(ns, e.flat[k].depth)))
  \o OneIf("children", e.kids = IdSeq(ns))
  \o OneIf("dump", DumpOk(SS, ns, TopLevel(ns), e.dump))
  \o ChkShown(SS, ns, e, e.o)
  \o OneIf("sub", IF e.sub.at = 0 THEN ns = <<>> ELSE SubOk(SS, ns, e.sub.at, e.sub, e.o))

-----------------------------------------------------------------------------
(* C01, C23: e.items is the data; e.r the bytes written (or No); e.rb what
   the library reads back. *)
SaysObs(obs) == [k \in 1..Len(obs) |-> IF IsErr(obs[k]) THEN [d |-> -1, id |-> 0, v |-> <<>>]
                                       ELSE [d |-> obs[k].d, id |-> obs[k].id, v |-> obs[k].v]]
(* What a refused encoding leaves in its stream: complete top-level elements,
   the header and some of the items before the refused one *)
LeftOk(e) ==
  LET SS == Schemas[e.sc]
      ns == DocNodes(e.left, 0, SS)
      hdr == IF e.hdr = 1 THEN Flat(SS, SS.hdr, 1) ELSE <<>> IN
  /\ \A k \in 1..Len(ns) : ~IsErr(ns[k])
  /\ Tiles(SS, ns, 0, Len(e.left))
  /\ \/ ns = <<>>
     \/ \E p \in 0..Len(e.items) :
          LET w == hdr \o Flat(SS, SubSeq(e.items, 1, p), 1) IN ~IsRefused(w) /\ SaysAll(ns) = w
ChkEnc(e) ==
  LET SS == Schemas[e.sc]
      want == (IF e.hdr = 1 THEN Flat(SS, SS.hdr, 1) ELSE <<>>) \o Flat(SS, e.items, 1) IN
  IF IsRefused(want) THEN OneIf("refused", e.r = No /\ \A k \in 1..Len(e.alt) : e.alt[k] = No) \o OneIf("left", LeftOk(e))
  ELSE IF e.r = No THEN <<"accepted">>
  ELSE LET d == Tail(e.r)
           ns == DocNodes(d, 0, SS) IN
       IF \E k \in 1..Len(ns) : IsErr(ns[k]) THEN <<"wellformed">>
       ELSE OneIf("samebytes", \A k \in 1..Len(e.alt) : e.alt[k] = e.r)
            \o OneIf("wellformed", Tiles(SS, ns, 0, Len(d)))
            \o OneIf("written", SaysAll(ns) = want)
            \o OneIf("readback", SaysObs(e.rb) = want)

(* C23: Element.encode(data, length, lengthSize, infinite) of one element class *)
ChkEncElem(e) ==
  LET SS == Schemas[e.sc]
      ty == Ty(SS, e.id)
      ln == IF e.n # -1 THEN e.n ELSE SS.ln[e.id]
      inf == e.inf = 1
      S2 == [SS EXCEPT !.ln[e.id] = IF ty = "void" /\ ln = -1 THEN 0 ELSE ln]
      many == e.val.k = "l"
      want == FlatVal(S2, e.id, e.val, 1)
      d == IF e.r = No THEN <<>> ELSE Tail(e.r)
      \* payload of a container is refused unless it has just the length requested
      ns == DocNodes(d, 0, SS)
      hw(p) == Hdr(d, p + 1)
      tops == TopLevel(ns)
  IN
  IF inf /\ ty # "master" THEN OneIf("refused", e.r = No)
  ELSE IF IsRefused(want) THEN OneIf("refused", e.r = No)
  ELSE IF e.ls # -1 /\ e.ls \notin 1..8 /\ ~(many /\ Len(e.val.xs) = 0) THEN OneIf("refused", e.r = No)
  ELSE IF e.r = No THEN
       \* refusing is right only if something does not fit
       \* (r0: the same with no width requested)
       OneIf("accepted", (ty = "master" /\ ln # -1)
         \/ (e.ls # -1 /\ e.r0 # No /\ ~inf /\
             LET b == DocNodes(Tail(e.r0), 0, SS) IN \E k \in 1..Len(b) : IsErr(b[k]) \/ (b[k].d = 1 /\ MinWidth(NatOf(b[k].sz)) > e.ls)))
  ELSE IF \E k \in 1..Len(ns) : IsErr(ns[k]) THEN <<"wellformed">>
  ELSE OneIf("wellformed", Adjoin(ns, tops, 0) = Len(d))
       \o OneIf("written", SaysAll(ns) = want)
       \o OneIf("length", ln = -1 \/ \A k \in 1..Len(tops) : ns[tops[k]].sz = ln)
       \o OneIf("width", \A k \in 1..Len(tops) :
                   LET w == ns[tops[k]].poff - ns[tops[k]].off - Len(Norm(NatOf(e.id))) IN
                   w = (IF e.ls # -1 THEN e.ls ELSE IF inf THEN 1 ELSE MinWidth(NatOf(ns[tops[k]].sz))))
       \o OneIf("unknownsize", \A k \in 1..Len(tops) : hw(ns[tops[k]].off).unk = inf)

-----------------------------------------------------------------------------
Clauses(e) ==
  CASE e.op = "doc" -> <<>>
    [] e.op = "nodes" -> Diff(Shown(cur, e.hdr), e.nodes)
    \* the same with a substitute for Schema.UNKNOWN: it made every unknown element and nothing else
    [] e.op = "handler" -> Diff(Shown(cur, e.hdr), e.nodes)
         \o OneIf("handler", /\ e.mine = [k \in 1..Len(Shown(cur, e.hdr)) |-> IF Ty(S, Shown(cur, e.hdr)[k].id) = "unknown" THEN 1 ELSE 0]
                            /\ e.gone = 1)
    [] e.op = "raw" -> OneIf("raw", RawOk(cur.ns, cur.d, e.raw, e.rawv))
    [] e.op = "cut" -> OneIf("cut", CutOk(cur, e.nodes, e.cut))
    [] e.op = "any" -> OneIf("any", AnyOk(cur, e.nodes))
    [] e.op = "verify" -> OneIf("verify", (e.ok = 1) = Verified(S, cur.ns))
    [] e.op = "views" -> ChkViews(cur, e)
    \* the same elements as the current document, apart from unknown and padding ones
    [] e.op = "same" -> LET c2 == MkDoc(e) IN
         IF Stripped(S, c2.ns) # Stripped(S, cur.ns) THEN Assert(FALSE, <<"generated variant differs", i>>)
         ELSE Diff(c2.ns, e.nodes)
    \* the same document with explicit sizes in descriptors of the same widths
    [] e.op = "twin" -> LET c2 == MkDoc(e) IN
         IF c2.ns # cur.ns THEN Assert(FALSE, <<"generated twin differs", i>>) ELSE Diff(c2.ns, e.nodes)
    \* a document that cannot even be opened: its first element (or its header's content) must be at fault
    [] e.op = "open" -> LET x == Elem(cur.d, cur.s + 1, S) IN
         OneIf("open", \/ x.st # "ok" \/ ~x.sure
                       \/ x.poff + x.sz - 1 > Len(cur.d)
                       \/ IsHeader(S, x) /\ ~Verified(S, SubSeq(cur.ns, 1, After(cur.ns, 1) - 1)))
    [] e.op = "cuts" -> OneIf("cut", \A k \in 1..Len(e.cuts) : CutOk(cur, e.cuts[k].nodes, e.cuts[k].cut))
    [] e.op = "enc" -> ChkEnc(e)
    [] e.op = "encElem" -> ChkEncElem(e)
    [] e.op \in {"hang", "crash"} -> <<e.op>>

Init == i = 1 /\ cur = NoDoc
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i]
               bad == Clauses(e) IN
           /\ IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))
           /\ cur' = IF e.op = "doc" THEN MkDoc(e) ELSE cur
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
