------------------------------- MODULE XmlMap -------------------------------
(* EBML as XML (C19), and XML as EBML (C20).                                 *)
(*                                                                           *)
(* An XML element is [tag, id, sl, size, v, kids]:                           *)
(*   tag   its name; "#" is a comment                                        *)
(*   id    the ID it carries (unknown elements), -1: none                    *)
(*   sl    requested width of the size descriptor, -1: none                  *)
(*   size  requested size of the payload, -1: none                           *)
(*   v     its value (as in Scalar; <<>> for containers)                     *)
(* Options o: sl (default width for containers, -1: none), headers, unknown. *)
EXTENDS EbmlTree

Names(S) == {S.els[i].nm : i \in 1..Len(S.els)}
IdOf(S, nm) == S.els[CHOOSE i \in 1..Len(S.els) : S.els[i].nm = nm].id
Comment(x) == x.tag = "#"
Known(S, x) == x.tag \in Names(S)
XId(S, x) == IF Known(S, x) THEN IdOf(S, x.tag) ELSE x.id
XTy(S, x) == IF Known(S, x) THEN Ty(S, IdOf(S, x.tag)) ELSE "bin"
XLen(S, x) == IF x.size = -1 \/ (x.size = 0 /\ XTy(S, x) \in {"int", "uint"}) THEN (IF Known(S, x) THEN S.ln[IdOf(S, x.tag)] ELSE -1) ELSE x.size

(* What is to be written: [d, id, v, w, sz] with the required width of the
   size descriptor (0: any) and payload size (-1: any); or XRefused.          *)
XRefused == <<[d |-> 0, id |-> 0, v |-> Bad, w |-> 0, sz |-> -1]>>
IsXRefused(xs) == \E i \in 1..Len(xs) : xs[i].d = 0
Item(k, id, v, w, sz) == <<[d |-> k, id |-> id, v |-> v, w |-> w, sz |-> sz]>>
IsId(id) == LET b == Norm(NatOf(id)) IN b # <<>> /\ DecId(b, 1).st = "ok" /\ DecId(b, 1).w = Len(b)
RECURSIVE Wanted(_, _, _, _, _), WantedOne(_, _, _, _, _)
(* dw: width of containers without own one (0: any) *)
Wanted(S, xs, o, k, dw) == IF xs = <<>> THEN <<>> ELSE WantedOne(S, Head(xs), o, k, dw) \o Wanted(S, Tail(xs), o, k, dw)
WantedOne(S, x, o, k, dw) ==
  IF Comment(x) THEN <<>>
  ELSE IF ~Known(S, x) /\ (o.unknown = 0 \/ x.id = -1 \/ ~IsId(x.id)) THEN XRefused
  ELSE LET id == XId(S, x)  ty == XTy(S, x)  ln == XLen(S, x)
           own == IF x.sl = -1 THEN 0 ELSE x.sl IN
    IF x.sl # -1 /\ x.sl \notin 1..8 THEN XRefused
    ELSE IF ty = "master" THEN Item(k, id, <<6>>, IF own # 0 THEN own ELSE dw, -1) \o Wanted(S, x.kids, o, k + 1, IF own # 0 THEN 0 ELSE dw)
    ELSE IF ty = "void" THEN Item(k, id, <<5>>, own, x.size)
    ELSE IF ~Representable(ty, ln, x.v) THEN XRefused
    ELSE LET rep == RepVal(ty, ln, x.v) IN
         Item(k, id, IF Known(S, x) \/ id \notin S.ids THEN rep ELSE DecodeAs(Ty(S, id), Tail(rep)), own, IF x.size > 0 THEN x.size ELSE -1)
AddsHeader(S, xs, o, doc) ==
  /\ o.headers = 1 /\ "EBML" \in Names(S)
  /\ ~\E k \in 1..Len(xs) : xs[k].tag = "EBML"
HeaderWanted(S) == LET f == Flat(S, S.hdr, 1) IN [k \in 1..Len(f) |-> [d |-> f[k].d, id |-> f[k].id, v |-> f[k].v, w |-> 0, sz |-> -1]]
DefaultWidth(o) == IF o.sl = -1 THEN 0 ELSE o.sl
(* xs: the elements within the document element, or the single one *)
WantedAll(S, xs, o, doc) == (IF AddsHeader(S, xs, o, doc) THEN HeaderWanted(S) ELSE <<>>) \o Wanted(S, xs, o, 1, DefaultWidth(o))

(* Does the document say (in ns) what is wanted (ws)? *)
Width(ns, k) == ns[k].poff - ns[k].off - Len(Norm(NatOf(ns[k].id)))
SayWanted(ns, ws) == Len(ns) = Len(ws) /\ \A k \in 1..Len(ns) : ~IsErr(ns[k]) /\ ns[k].d = ws[k].d /\ ns[k].id = ws[k].id /\ ns[k].v = ws[k].v
WidthsOk(ns, ws) == \A k \in 1..Len(ns) : ws[k].w # 0 => Width(ns, k) = ws[k].w
SizesOk(ns, ws) == \A k \in 1..Len(ns) : ws[k].sz # -1 => ns[k].sz = ws[k].sz

(* May the widths required not suffice?  (an upper bound of what is written) *)
Space(x) == 12 + 4 * Len(x.v) + (IF x.size > 0 THEN x.size ELSE 0) + 300
RECURSIVE Most(_)
Most(xs) == IF xs = <<>> THEN 0 ELSE 12 + (IF Comment(Head(xs)) THEN 0 ELSE Space(Head(xs)) + Most(Head(xs).kids)) + Most(Tail(xs))
Tight(w, n) == w \in {1, 2} /\ n > Pow2(7 * w) - 2
RECURSIVE MayNotFit(_, _)
MayNotFit(xs, dw) == \E k \in 1..Len(xs) : ~Comment(xs[k]) /\
   LET x == xs[k]  w == IF x.sl # -1 THEN x.sl ELSE IF x.kids # <<>> \/ x.v = <<>> THEN dw ELSE 0 IN
   Tight(w, Most(<<x>>)) \/ MayNotFit(x.kids, IF x.sl # -1 THEN 0 ELSE dw)

-----------------------------------------------------------------------------
(* C19: two documents say the same.  o: sizes = 1 if sizes are in the XML.   *)
SameValue(ty, a, b, o) == a = b \/ (ty = "float" /\ o.sizes = 0 /\ IsZeroF(a) /\ IsZeroF(b))
SameNode(S, a, b, o) ==
  /\ ~IsErr(a) /\ ~IsErr(b) /\ a.d = b.d /\ a.id = b.id
  /\ SameValue(Ty(S, a.id), a.v, b.v, o)
  /\ (Ty(S, a.id) = "void" /\ o.sizes = 1) => a.sz = b.sz
SameDoc(S, ns, ms, o) == Len(ns) = Len(ms) /\ \A k \in 1..Len(ns) : SameNode(S, ns[k], ms[k], o)

-----------------------------------------------------------------------------
(* The XML of a document, and a writer of EBML: the reference conversions    *)
RECURSIVE XmlOf(_, _, _, _)
XmlOf(S, ns, ix, sizes) ==
  [k \in 1..Len(ix) |->
     LET n == ns[ix[k]]  known == n.id \in S.ids  ty == Ty(S, n.id) IN
     [tag |-> IF known THEN S.els[CHOOSE i \in 1..Len(S.els) : S.els[i].id = n.id].nm ELSE "UnknownElement",
      id |-> n.id, sl |-> -1, size |-> IF ty = "void" \/ (sizes = 1 /\ ty # "master") THEN n.sz ELSE -1,
      v |-> IF ty = "master" THEN <<>> ELSE n.v,
      kids |-> IF ty = "master" THEN XmlOf(S, ns, ChildrenOf(ns, ix[k]), sizes) ELSE <<>>]]
SizeB(n, w) == LET b == PadL(NatOf(n), w) IN [b EXCEPT ![1] = @ + Pow2(8 - w)]
Least(n) == CHOOSE w \in 1..8 : n <= Pow2(7 * (IF w > 4 THEN 4 ELSE w)) - 2 /\ (w = 1 \/ n > Pow2(7 * (w - 1)) - 2)
Enc(ty, ln, v) ==        \* payload
  CASE ty = "int" -> Tail(EncSInt(v, ln)) [] ty = "uint" -> Tail(EncUInt(v, ln))
    [] ty = "float" -> IF ln = 0 \/ (ln = -1 /\ IsZeroF(v)) THEN <<>> ELSE IF v = NaN THEN <<127, 248>> \o Zeros(6) ELSE IF ln = 4 THEN Tail(Narrow(Tail(v))) ELSE Tail(v)
    [] ty = "date" -> Tail(EncDate(v, ln)) [] ty = "str" -> Tail(EncString(Tail(v), ln))
    [] ty = "uni" -> Tail(EncUniElem(Tail(v), ln)) [] OTHER -> Tail(EncBinary(Tail(v), ln))
RECURSIVE Write(_, _, _)
Write(S, xs, dw) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs) IN
       (IF Comment(x) THEN <<>>
        ELSE LET ty == XTy(S, x)
                 pay == IF ty = "master" THEN Write(S, x.kids, IF x.sl # -1 THEN 0 ELSE dw)
                        ELSE IF ty = "void" THEN [k \in 1..(IF x.size = -1 THEN 0 ELSE x.size) |-> 255]
                        ELSE Enc(ty, XLen(S, x), x.v)
                 w == IF x.sl # -1 THEN x.sl ELSE IF ty = "master" /\ dw # 0 THEN dw ELSE Least(Len(pay))
             IN Norm(NatOf(XId(S, x))) \o SizeB(Len(pay), w) \o pay)
       \o Write(S, Tail(xs), dw)
=============================================================================
