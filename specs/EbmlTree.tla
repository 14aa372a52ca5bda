------------------------------ MODULE EbmlTree ------------------------------
(* Reference reader: what the bytes of an EBML document say, given a schema. *)
(*                                                                           *)
(* A schema (from the JSON file IOEnv.SCHEMAS, a list) is                    *)
(*   [ids, ty, ch, mu, pc, ln, nm, gl, root]                                 *)
(* with functions from IDs: type, set of declared children, repeatable,      *)
(* pre-read, fixed length (-1 = none), name; gl = IDs of global elements.    *)
(*                                                                           *)
(* A node is [d, id, off, poff, sz, v]: depth (1 = top level), ID, offset of *)
(* the header, offset of the payload (both 0-based), payload size, value.    *)
(* A level that ends with an error ends with the node [d, err |-> 1].        *)
EXTENDS Vint, Scalar, TLC, Json, IOUtils, FiniteSets

RawSchemas == JsonDeserialize(IOEnv.SCHEMAS)
SetOf(s) == {s[i] : i \in 1..Len(s)}
MkSchema(s) ==
  LET ids == {s.els[i].id : i \in 1..Len(s.els)}
      idx == [x \in ids |-> CHOOSE i \in 1..Len(s.els) : s.els[i].id = x]
  IN TLCEval([ids |-> ids,
      ty |-> [x \in ids |-> s.els[idx[x]].ty],
      ch |-> [x \in ids |-> SetOf(s.els[idx[x]].ch)],
      mu |-> [x \in ids |-> s.els[idx[x]].mu = 1],
      pc |-> [x \in ids |-> s.els[idx[x]].pc = 1],
      ln |-> [x \in ids |-> s.els[idx[x]].ln],
      gl |-> {s.els[i].id : i \in {j \in 1..Len(s.els) : s.els[j].gl = 1}},
      root |-> SetOf(s.root),
      els |-> s.els, hdr |-> s.hdr])
Schemas == TLCEval([k \in 1..Len(RawSchemas) |-> MkSchema(RawSchemas[k])])

Ty(S, id) == IF id \in S.ids THEN S.ty[id] ELSE "unknown"
IsMaster(S, id) == Ty(S, id) = "master"
Kids(S, id) == IF id \in S.ids THEN S.ch[id] ELSE {}
(* May an element be inside a container of unknown size? *)
ValidChild(S, parent, id) == Kids(S, parent) # {} /\ (id \in Kids(S, parent) \/ id \in S.gl)

-----------------------------------------------------------------------------
(* The element header at index p (1-based). st: ok, eof (no byte), bad (a    *)
(* byte that cannot start an ID), cut (truncated within the header).         *)
Hdr(d, p) ==
  LET i == DecId(d, p) IN
  IF i.st # "ok" THEN [st |-> i.st, id |-> 0, iw |-> i.w, w |-> 0, unk |-> FALSE, n |-> 0]
  ELSE LET z == DecSize(d, p + i.w) IN
       [st |-> z.st, id |-> i.id, iw |-> i.w, w |-> i.w + z.w, unk |-> z.unk, n |-> IntOf(z.n)]

RECURSIVE Elem(_, _, _), UnkEnd(_, _, _, _)
NoElem(st) == [st |-> st, id |-> 0, poff |-> 0, sz |-> 0, unk |-> FALSE, sure |-> FALSE]
(* The element at index p: its payload starts at index poff and has sz bytes.
   st: as Hdr, or unk (unknown size, but no container), err (its end cannot be
   determined because of an error within).  sure is FALSE when a truncated
   header within leaves the size undetermined. *)
Elem(d, p, S) ==
  LET h == Hdr(d, p) IN
  IF h.st # "ok" THEN NoElem(h.st)
  ELSE IF ~h.unk THEN [st |-> "ok", id |-> h.id, poff |-> p + h.w, sz |-> h.n, unk |-> FALSE, sure |-> TRUE]
  ELSE IF ~IsMaster(S, h.id) THEN NoElem("unk")
  ELSE LET e == UnkEnd(d, p + h.w, S, h.id) IN
       IF e[1] = "err" THEN NoElem("err")
       ELSE [st |-> "ok", id |-> h.id, poff |-> p + h.w, sz |-> e[2] - (p + h.w), unk |-> TRUE, sure |-> e[1] = "ok"]
(* <<st, first index that does not belong to a container of unknown size>> *)
UnkEnd(d, q, S, id) ==
  LET h == Hdr(d, q) IN
  IF h.st = "eof" THEN <<"ok", q>>
  ELSE IF h.st = "cut" THEN <<"cut", q>>
  ELSE IF h.st = "bad" THEN <<"err", 0>>
  ELSE LET e == Elem(d, q, S) IN
       IF e.st # "ok" THEN <<"err", 0>>
       ELSE IF ~ValidChild(S, id, h.id) THEN <<"ok", q>>
       ELSE IF e.poff + e.sz > Len(d) + 1 THEN <<"cut", e.poff + e.sz>>
       ELSE IF ~e.sure THEN <<"cut", e.poff + e.sz>>
       ELSE UnkEnd(d, e.poff + e.sz, S, id)

(* Bytes of a payload that the data actually holds *)
Payload(d, poff, sz) == SubSeq(d, poff, IF poff + sz - 1 > Len(d) THEN Len(d) ELSE poff + sz - 1)
Node(S, d, p, e, k) ==
  [d |-> k, id |-> e.id, off |-> p - 1, poff |-> e.poff - 1, sz |-> e.sz,
   v |-> DecodeAs(Ty(S, e.id), Payload(d, e.poff, e.sz))]

RECURSIVE Walk(_, _, _, _, _)
(* All nodes of the level starting at index p, up to index end (exclusive). *)
Walk(d, p, end, k, S) ==
  IF p >= end THEN <<>>
  ELSE LET e == Elem(d, p, S) IN
       IF e.st \in {"eof", "cut"} THEN <<>>
       ELSE IF e.st # "ok" THEN <<[d |-> k, err |-> 1]>>
       ELSE <<Node(S, d, p, e, k)>>
            \o (IF IsMaster(S, e.id) THEN Walk(d, e.poff, e.poff + e.sz, k + 1, S) ELSE <<>>)
            \o Walk(d, e.poff + e.sz, end, k, S)

(* A document starts at 0-based offset s and extends to the end of the data. *)
DocNodes(d, s, S) == Walk(d, s + 1, Len(d) + 1, 1, S)

IsErr(n) == "err" \in DOMAIN n
EbmlId == 440786851                      \* 0x1A45DFA3
(* The document without its leading EBML header, if it has one *)
IsHeader(S, e) == e.st = "ok" /\ e.id \in S.ids /\ \E i \in 1..Len(S.els) : S.els[i].id = e.id /\ S.els[i].nm = "EBML"
HeaderEnd(d, s, S) ==
  LET e == Elem(d, s + 1, S) IN IF IsHeader(S, e) THEN e.poff + e.sz - 1 ELSE s
DocNodesNoHeader(d, s, S) == DocNodes(d, HeaderEnd(d, s, S), S)

-----------------------------------------------------------------------------
(* Structure of a node sequence (preorder) *)
RECURSIVE SubEnd(_, _, _)
(* index after the last descendant of node i *)
SubEnd(ns, i, k) == IF k > Len(ns) \/ ns[k].d <= ns[i].d THEN k ELSE SubEnd(ns, i, k + 1)
After(ns, i) == SubEnd(ns, i, i + 1)
RECURSIVE LevelFrom(_, _, _)
(* indices of the siblings starting at index i, at depth k *)
LevelFrom(ns, i, k) == IF i > Len(ns) \/ ns[i].d < k THEN <<>> ELSE <<i>> \o LevelFrom(ns, After(ns, i), k)
ChildrenOf(ns, i) == LevelFrom(ns, i + 1, ns[i].d + 1)
TopLevel(ns) == LevelFrom(ns, 1, 1)

(* Tiling: siblings adjoin, children exactly fill their container, top level
   fills s..n. *)
RECURSIVE Adjoin(_, _, _)
Adjoin(ns, ix, at) == IF ix = <<>> THEN at
                      ELSE IF ns[Head(ix)].off # at THEN -1
                      ELSE Adjoin(ns, Tail(ix), ns[Head(ix)].poff + ns[Head(ix)].sz)
Tiles(S, ns, s, n) ==
  /\ Adjoin(ns, TopLevel(ns), s) = n
  /\ \A i \in 1..Len(ns) : IsMaster(S, ns[i].id) =>
        Adjoin(ns, ChildrenOf(ns, i), ns[i].poff) = ns[i].poff + ns[i].sz
  /\ \A i \in 1..Len(ns) : ns[i].poff > ns[i].off /\ ns[i].sz >= 0

(* What an element says, whatever its position and header *)
Says(n) == [d |-> n.d, id |-> n.id, v |-> n.v]
SaysAll(ns) == [i \in 1..Len(ns) |-> Says(ns[i])]

RECURSIVE Keep(_, _, _)
Keep(S, ns, i) ==            \* without unknown and padding elements
  IF i > Len(ns) THEN <<>>
  ELSE IF Ty(S, ns[i].id) \in {"unknown", "void"} THEN Keep(S, ns, i + 1)
  ELSE <<ns[i]>> \o Keep(S, ns, i + 1)
Stripped(S, ns) == SaysAll(Keep(S, ns, 1))

-----------------------------------------------------------------------------
(* C22: dump.  obs is the nested dictionary as a list of [id, many, xs]; a    *)
(* value is [v] or a nested list [m].                                        *)
RECURSIVE DumpOk(_, _, _, _), DumpVal(_, _, _, _)
DumpOk(SS, ns, ix, obs) ==
  LET ids == {IF ns[ix[a]].id \in SS.ids THEN ns[ix[a]].id ELSE 0 : a \in 1..Len(ix)}
      of(id) == SelectSeq(ix, LAMBDA a : (IF ns[a].id \in SS.ids THEN ns[a].id ELSE 0) = id) IN
  /\ Len(obs) = Cardinality(ids)
  /\ {obs[a].id : a \in 1..Len(obs)} = ids
  /\ \A a \in 1..Len(obs) :
       LET w == of(obs[a].id)
           multi == obs[a].id \in SS.ids /\ SS.mu[obs[a].id] IN
       /\ obs[a].many = (IF multi THEN 1 ELSE 0)
       /\ IF multi THEN Len(obs[a].xs) = Len(w) /\ \A b \in 1..Len(w) : DumpVal(SS, ns, w[b], obs[a].xs[b])
          ELSE Len(obs[a].xs) = 1 /\ DumpVal(SS, ns, w[Len(w)], obs[a].xs[1])
DumpVal(SS, ns, x, o) == IF IsMaster(SS, ns[x].id) THEN "m" \in DOMAIN o /\ DumpOk(SS, ns, ChildrenOf(ns, x), o.m)
                         ELSE "v" \in DOMAIN o /\ o.v = ns[x].v
-----------------------------------------------------------------------------
(* Verification: every element known and decodable, every header valid *)
Verified(S, ns) == \A i \in 1..Len(ns) :
    ~IsErr(ns[i]) /\ ns[i].id \in S.ids /\ (IsMaster(S, ns[i].id) \/ ~IsBad(ns[i].v))

-----------------------------------------------------------------------------
(* Structured data handed to the encoder.  A value is                        *)
(*   [k |-> "s", v |-> value]      scalar (v as in Scalar), "n": None        *)
(*   [k |-> "l", xs |-> <<...>>]   several values                            *)
(*   [k |-> "m", xs |-> <<items>>] contents of a container                   *)
(* and an item is [id, val].                                                 *)
Representable(ty, ln, v) ==
  CASE ty = "int" -> v[1] = 1 /\ EncSInt(v, ln) # No
    [] ty = "uint" -> v[1] = 1 /\ EncUInt(v, ln) # No
    [] ty = "float" -> v[1] = 2 /\ ln \in {-1, 0, 4, 8} /\ ~IsBad(RoundF(v, ln))
    [] ty = "date" -> v[1] = 4 /\ EncDate(v, ln) # No
    [] ty = "str" -> v[1] \in {3, 5}
    [] ty = "uni" -> v[1] = 3 /\ EncUniElem(Tail(v), ln) # No
    [] ty = "bin" -> (v[1] = 5 /\ EncBinary(Tail(v), ln) # No)
                     \/ (v[1] = 3 /\ EncUniElem(Tail(v), -1) # No /\ EncBinary(Utf8(Tail(v)), ln) # No)
    [] ty = "void" -> TRUE
    [] OTHER -> FALSE
RepVal(ty, ln, v) ==
  CASE ty \in {"int", "uint"} -> v
    [] ty = "float" -> IF ln = 0 THEN FZero ELSE IF ln = -1 /\ IsZeroF(v) THEN FZero ELSE RoundF(v, ln)
    [] ty = "date" -> v
    [] ty = "str" -> DecString(Tail(EncString(Tail(v), ln)))
    [] ty = "uni" -> DecUnicode(Tail(EncUniElem(Tail(v), ln)))
    [] ty = "bin" -> <<5>> \o Tail(EncBinary(IF v[1] = 3 THEN Utf8(Tail(v)) ELSE Tail(v), ln))
    [] ty = "void" -> <<5>>

RECURSIVE Flat(_, _, _), FlatVal(_, _, _, _)
Refused == <<[d |-> 0, id |-> 0, v |-> Bad]>>
(* The elements (what they say) that the data stand for; contains an item of
   depth 0 when the data must be refused. *)
Flat(S, items, k) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items) IN
       (IF it.id \notin S.ids THEN Refused ELSE FlatVal(S, it.id, it.val, k)) \o Flat(S, Tail(items), k)
RECURSIVE FlatMany(_, _, _, _)
FlatMany(S, id, xs, k) == IF xs = <<>> THEN <<>> ELSE FlatVal(S, id, Head(xs), k) \o FlatMany(S, id, Tail(xs), k)
FlatVal(S, id, val, k) ==
  LET ty == S.ty[id]
      leaf(v) == <<[d |-> k, id |-> id, v |-> v]>>
  IN CASE val.k = "l" -> IF S.mu[id] THEN FlatMany(S, id, val.xs, k) ELSE Refused
       [] val.k = "m" -> IF ty = "master" THEN leaf(<<6>>) \o Flat(S, val.xs, k + 1)
                         ELSE IF ty = "void" THEN leaf(<<5>>) ELSE Refused
       [] val.k = "n" -> (CASE ty = "master" -> leaf(<<6>>) [] ty \in {"void"} -> leaf(<<5>>)
                            [] ty = "bin" -> leaf(<<5>> \o Zeros(IF S.ln[id] = -1 THEN 0 ELSE S.ln[id]))
                            [] ty = "float" /\ S.ln[id] \in {-1, 0} -> leaf(FZero)   \* documented default
                            [] OTHER -> Refused)
       [] val.k = "s" -> IF ty = "master" THEN Refused
                         ELSE IF Representable(ty, S.ln[id], val.v) THEN leaf(RepVal(ty, S.ln[id], val.v))
                         ELSE Refused
       [] OTHER -> IF ty = "void" THEN leaf(<<5>>) ELSE Refused
IsRefused(fs) == \E i \in 1..Len(fs) : fs[i].d = 0

(* The default header: an EBML container of the schema's default values *)
HeaderItems(S) == S.hdr
=============================================================================
