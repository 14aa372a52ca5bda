------------------------------- MODULE Access -------------------------------
(* Access to open documents (C11, C12, C13, C25): element objects with their *)
(* cached values, iterators, clearing of caches, the bytes each access may   *)
(* read, ownership of streams.                                               *)
(*                                                                           *)
(* State: srcs  the streams: [d (bytes), closed]                             *)
(*        docs  the open documents: [src, sc, s, from, ns, own]; ns are the  *)
(*              nodes of the whole document, shown from index `from'         *)
(*        objs  element objects: [doc, node, cached, v, kids]; node 0 is the *)
(*              document itself; kids are the objects of a cached container  *)
(*        its   iterators: [o, k (next), flat]                               *)
(* Exp(st, e) is what the access e gives: its result r, the offsets of the   *)
(* stream it may read, and the state after it.                               *)
EXTENDS EbmlTree

St0 == [srcs |-> <<>>, docs |-> <<>>, objs |-> <<>>, its |-> <<>>]
None == <<>>

-----------------------------------------------------------------------------
(* The bytes that accesses may read *)
Rng(a, b) == a..(b - 1)
HdrB(ns, i) == Rng(ns[i].off, ns[i].poff)
PayB(ns, i) == Rng(ns[i].poff, ns[i].poff + ns[i].sz)
ElB(ns, i) == HdrB(ns, i) \cup PayB(ns, i)
IsUnk(d, ns, i) == Hdr(d, ns[i].off + 1).unk
RECURSIVE Scan(_, _, _)
(* Finding the end of a container of unknown size: the headers of its
   children and of the element that ends it. *)
Scan(d, ns, i) ==
  IF ~IsUnk(d, ns, i) THEN {}
  ELSE UNION {HdrB(ns, c) \cup Scan(d, ns, c) : c \in SetOf(ChildrenOf(ns, i))}
       \cup (LET n == After(ns, i) IN IF n > Len(ns) THEN {} ELSE HdrB(ns, n) \cup Scan(d, ns, n))
RECURSIVE Parse(_, _, _, _), ParseAll(_, _, _, _)
Parse(d, ns, S, i) ==
  HdrB(ns, i) \cup Scan(d, ns, i)
  \cup (IF ns[i].id \in S.ids /\ S.pc[ns[i].id]
        THEN IF IsMaster(S, ns[i].id) THEN ParseAll(d, ns, S, ChildrenOf(ns, i)) ELSE PayB(ns, i) ELSE {})
ParseAll(d, ns, S, ix) == UNION {Parse(d, ns, S, i) : i \in SetOf(ix)}

-----------------------------------------------------------------------------
Doc(st, o) == st.docs[st.objs[o].doc]
NsOf(st, o) == Doc(st, o).ns
SOf(st, o) == Schemas[Doc(st, o).sc]
DOf(st, o) == st.srcs[Doc(st, o).src].d
IsDoc(st, o) == st.objs[o].node = 0
IsCont(st, o) == IsDoc(st, o) \/ IsMaster(SOf(st, o), NsOf(st, o)[st.objs[o].node].id)
KidIx(st, o) == IF IsDoc(st, o) THEN LevelFrom(NsOf(st, o), Doc(st, o).from, 1)
                ELSE ChildrenOf(NsOf(st, o), st.objs[o].node)
FlatIx(st, o) == IF IsDoc(st, o) THEN [k \in 1..(Len(NsOf(st, o)) - Doc(st, o).from + 1) |-> k + Doc(st, o).from - 1]
                 ELSE [k \in 1..(After(NsOf(st, o), st.objs[o].node) - st.objs[o].node - 1) |-> k + st.objs[o].node]
Self(st, o) == IF IsDoc(st, o) THEN {} ELSE Scan(DOf(st, o), NsOf(st, o), st.objs[o].node)
Whole(st, o) == IF IsDoc(st, o) THEN UNION {ElB(NsOf(st, o), i) : i \in SetOf(KidIx(st, o))}
                ELSE ElB(NsOf(st, o), st.objs[o].node) \cup Self(st, o)
At(n) == <<n.id, n.off, n.poff>>

(* New objects of the nodes ix of document k: <<state, objects>>.  Those that
   are pre-read have their value at once (a container: objects for all of its
   children). *)
RECURSIVE AddObjs(_, _, _), Fill(_, _)
AddObjs(st, k, ix) ==
  IF ix = <<>> THEN <<st, <<>>>>
  ELSE LET n == st.docs[k].ns[Head(ix)]
           S == Schemas[st.docs[k].sc]
           pre == n.id \in S.ids /\ S.pc[n.id]
           leaf == pre /\ ~IsMaster(S, n.id)
           o == Len(st.objs) + 1
           s2 == [st EXCEPT !.objs = Append(@, [doc |-> k, node |-> Head(ix), cached |-> leaf,
                                                v |-> IF leaf THEN n.v ELSE <<>>, kids |-> <<>>])]
           rest == AddObjs(IF pre /\ ~leaf THEN Fill(s2, o) ELSE s2, k, Tail(ix)) IN
       <<rest[1], <<o>> \o rest[2]>>
(* reading the value of a container: objects for all of its children *)
Fill(st, o) ==
  IF st.objs[o].cached THEN st
  ELSE LET s2 == AddObjs(st, st.objs[o].doc, KidIx(st, o)) IN
       [s2[1] EXCEPT !.objs[o].cached = TRUE, !.objs[o].kids = s2[2]]
FillB(st, o) == IF st.objs[o].cached THEN {} ELSE Self(st, o) \cup ParseAll(DOf(st, o), NsOf(st, o), SOf(st, o), KidIx(st, o))

RECURSIVE Clear(_, _, _), ClearAll(_, _, _)
Clear(objs, o, rec) ==                  \* <<number of values dropped, objs>>
  IF ~objs[o].cached THEN <<0, objs>>
  ELSE LET below == IF rec THEN ClearAll(objs, objs[o].kids, 1) ELSE <<0, objs>> IN
       <<below[1] + 1, [below[2] EXCEPT ![o].cached = FALSE, ![o].kids = <<>>, ![o].v = <<>>]>>
ClearAll(objs, ks, j) ==
  IF j > Len(ks) THEN <<0, objs>>
  ELSE LET a == Clear(objs, ks[j], TRUE)
           b == ClearAll(a[2], ks, j + 1) IN <<a[1] + b[1], b[2]>>

(* The header of a document: its first element, if that is an EBML header *)
HasHeader(S, d, s) == IsHeader(S, Elem(d, s + 1, S))
HeadIx(doc, d) == IF HasHeader(Schemas[doc.sc], d, doc.s) THEN ChildrenOf(doc.ns, 1) ELSE <<>>
RECURSIVE LastNamed(_, _, _)
NameOf(S, id) == (CHOOSE i \in 1..Len(S.els) : S.els[i].id = id)
LastNamed(doc, ix, nm) ==
  IF ix = <<>> THEN <<>>
  ELSE LET S == Schemas[doc.sc]
           x == LastNamed(doc, Tail(ix), nm)
           n == doc.ns[Head(ix)] IN
       IF x # <<>> THEN x
       ELSE IF n.id \in S.ids /\ S.els[NameOf(S, n.id)].nm = nm THEN n.v ELSE <<>>

NewDoc(st, e) ==
  LET d == st.srcs[e.src].d
      S == Schemas[e.sc]
      ns == DocNodes(d, e.s, S) IN
  [src |-> e.src, sc |-> e.sc, s |-> e.s, ns |-> ns, own |-> e.own = 1,
   from |-> IF e.hdr = 0 /\ HasHeader(S, d, e.s) THEN After(ns, 1) ELSE 1]
OpenB(st, e) == LET doc == NewDoc(st, e)
                    d == st.srcs[e.src].d IN
   IF doc.ns = <<>> THEN {}
   ELSE Parse(d, doc.ns, Schemas[e.sc], 1) \cup (IF HasHeader(Schemas[e.sc], d, e.s) THEN ElB(doc.ns, 1) ELSE {})

Exp(st, e) ==
  LET X(r, may, s2) == [r |-> r, may |-> may, st |-> s2] IN
  CASE e.op = "src" -> X(None, {}, [st EXCEPT !.srcs = Append(@, [d |-> e.d, closed |-> FALSE])])
    [] e.op = "open" ->
         LET doc == NewDoc(st, e)
             s2 == [st EXCEPT !.docs = Append(@, doc)] IN
         X(None, OpenB(st, e),
           [s2 EXCEPT !.objs = Append(@, [doc |-> Len(s2.docs), node |-> 0, cached |-> FALSE, v |-> <<>>, kids |-> <<>>])])
    [] e.op = "iter" ->
         X(None, IF IsDoc(st, e.o) THEN {} ELSE Self(st, e.o), [st EXCEPT !.its = Append(@, [o |-> e.o, k |-> 1, flat |-> e.flat = 1])])
    [] e.op = "next" ->
         LET it == st.its[e.it]
             ix == IF it.flat THEN FlatIx(st, it.o) ELSE KidIx(st, it.o)
             ns == NsOf(st, it.o) IN
         IF it.k > Len(ix) THEN X(None, Self(st, it.o), st)
         ELSE X(At(ns[ix[it.k]]),
                Self(st, it.o) \cup Parse(DOf(st, it.o), ns, SOf(st, it.o), ix[it.k])
                  \cup (IF it.k > 1 THEN Scan(DOf(st, it.o), ns, ix[it.k - 1]) ELSE {}),
                [AddObjs(st, st.objs[it.o].doc, <<ix[it.k]>>)[1] EXCEPT !.its[e.it].k = @ + 1])
    [] e.op = "index" ->
         LET ix == KidIx(st, e.o)
             r == IF e.n < Len(ix) THEN At(NsOf(st, e.o)[ix[e.n + 1]]) ELSE None IN
         IF IsDoc(st, e.o)
         THEN X(r, ParseAll(DOf(st, e.o), NsOf(st, e.o), SOf(st, e.o), IF e.n < Len(ix) THEN SubSeq(ix, 1, e.n + 1) ELSE ix),
                IF r = None THEN st ELSE AddObjs(st, st.objs[e.o].doc, <<ix[e.n + 1]>>)[1])
         ELSE X(r, FillB(st, e.o), Fill(st, e.o))
    [] e.op = "value" ->
         IF IsCont(st, e.o)
         THEN LET s2 == Fill(st, e.o) IN
              X([k \in 1..Len(s2.objs[e.o].kids) |-> <<s2.objs[e.o].kids[k]>> \o At(NsOf(s2, e.o)[s2.objs[s2.objs[e.o].kids[k]].node])],
                FillB(st, e.o), s2)
         ELSE IF st.objs[e.o].cached THEN X(st.objs[e.o].v, {}, st)
         ELSE LET v == NsOf(st, e.o)[st.objs[e.o].node].v IN
              X(v, IF Ty(SOf(st, e.o), NsOf(st, e.o)[st.objs[e.o].node].id) = "void" THEN {} ELSE PayB(NsOf(st, e.o), st.objs[e.o].node),
                [st EXCEPT !.objs[e.o].cached = TRUE, !.objs[e.o].v = v])
    [] e.op = "len" ->
         X(Len(KidIx(st, e.o)), Self(st, e.o) \cup ParseAll(DOf(st, e.o), NsOf(st, e.o), SOf(st, e.o), KidIx(st, e.o)), st)
    [] e.op = "size" -> X(NsOf(st, e.o)[st.objs[e.o].node].sz, Self(st, e.o), st)
    [] e.op = "docsize" -> X(0, UNION {ElB(NsOf(st, e.o), i) : i \in 1..Len(NsOf(st, e.o))}, st)
    [] e.op = "raw" /\ IsDoc(st, e.o) ->
         LET ns == NsOf(st, e.o)  f == Doc(st, e.o).from
             from == IF e.hd = 1 THEN Doc(st, e.o).s ELSE IF f <= Len(ns) THEN ns[f].off ELSE Len(DOf(st, e.o)) IN
         X(SubSeq(DOf(st, e.o), from + 1, Len(DOf(st, e.o))), UNION {ElB(ns, i) : i \in 1..Len(ns)}, st)
    [] e.op = "raw" ->
         LET n == NsOf(st, e.o)[st.objs[e.o].node] IN
         X(SubSeq(DOf(st, e.o), (IF e.hd = 1 THEN n.off ELSE n.poff) + 1, n.poff + n.sz), Whole(st, e.o), st)
    [] e.op = "dump" -> X(None, Whole(st, e.o), st)
    [] e.op = "nodes" -> X(SubSeq(NsOf(st, e.o), Doc(st, e.o).from, Len(NsOf(st, e.o))), UNION {ElB(NsOf(st, e.o), i) : i \in 1..Len(NsOf(st, e.o))}, st)
    [] e.op = "gc" -> LET c == IF IsDoc(st, e.o) THEN <<0, st.objs>> ELSE Clear(st.objs, e.o, e.rec = 1) IN
         X(c[1], {}, [st EXCEPT !.objs = c[2]])
    [] e.op = "info" -> X(None, {}, st)
    [] e.op = "poke" ->               \* the stream changes (only within a payload)
         LET d2 == [st.srcs[e.src].d EXCEPT ![e.off + 1] = e.b] IN
         X(None, {}, [st EXCEPT !.srcs[e.src].d = d2,
              !.docs = [k \in 1..Len(@) |-> LET doc == @[k] IN IF doc.src # e.src THEN doc
                                            ELSE [doc EXCEPT !.ns = DocNodes(d2, doc.s, Schemas[doc.sc])]]])
    [] e.op = "close" -> LET s == Doc(st, e.o).src
                             c == st.srcs[s].closed \/ Doc(st, e.o).own IN
         X(IF c THEN 1 ELSE 0, {}, [st EXCEPT !.srcs[s].closed = c])
    [] e.op = "closed" -> X(IF st.srcs[e.src].closed THEN 1 ELSE 0, {}, st)
    [] e.op \in {"file", "same"} -> X(None, {}, st)
    [] OTHER -> Assert(FALSE, e)

DumpMatches(st, e) ==
  IF e.op = "dump" THEN DumpOk(SOf(st, e.o), NsOf(st, e.o), KidIx(st, e.o), e.r) ELSE TRUE
(* The document's information, type and version *)
InfoMatches(st, o, e) ==
  LET doc == Doc(st, o)
      ix == HeadIx(doc, DOf(st, o)) IN
  /\ DumpOk(Schemas[doc.sc], doc.ns, ix, e.info)
  /\ e.ty = LastNamed(doc, ix, "DocType")
  /\ e.ver = LastNamed(doc, ix, "DocTypeVersion")
=============================================================================
