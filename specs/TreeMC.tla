------------------------------- MODULE TreeMC -------------------------------
(* The writer of EBML documents as a pushdown machine: elements are opened,  *)
(* closed and filled one after the other, with sizes known or unknown.  It   *)
(* knows what it wrote (the nodes); the reference reader EbmlTree must see   *)
(* exactly that (RoundTrip), whatever the writer does.                       *)
(* Schema 1 of the file IOEnv.SCHEMAS (tree.fixed_schema) is used.           *)
EXTENDS EbmlTree

Budget == atoi(IOEnv.BUDGET)            \* elements per document
S == Schemas[1]

(* A frame: the container being written, the bytes and nodes written so far  *)
(* into it (offsets relative to its payload; depth 1 = its children), and    *)
(* the bytes with every size made explicit in the same width.                *)
VARIABLES stack, left, pending
vars == <<stack, left, pending>>

Frame(id, unk, w) == [id |-> id, unk |-> unk, w |-> w, pay |-> <<>>, twin |-> <<>>, nodes |-> <<>>]
Init == stack = <<Frame(0, FALSE, 1)>> /\ left = Budget /\ pending = {}

Top == stack[Len(stack)]
IdB(id) == NatOf(id)
SizeB(n, w) == LET b == PadL(NatOf(n), w) IN [b EXCEPT ![1] = @ + Pow2(8 - w)]
UnkSize(w) == [[i \in 1..w |-> 255] EXCEPT ![1] = Pow2(9 - w) - 1]

(* May an element with this ID be written next? It must not be taken for a   *)
(* child of a container of unknown size that has just ended, and must be a   *)
(* child of the container of unknown size it is written into.                *)
Allowed(id) == /\ \A p \in pending : ~ValidChild(S, p, id)
               /\ Top.unk => ValidChild(S, Top.id, id)

Shift(n, by) == [n EXCEPT !.d = @ + 1, !.off = @ + by, !.poff = @ + by]
Put(f, hd, hd2, pay, pay2, id, nodes) ==
  LET at == Len(f.pay) + Len(hd) IN
  [f EXCEPT !.pay = @ \o hd \o pay,
            !.twin = @ \o hd2 \o pay2,
            !.nodes = @ \o <<[d |-> 1, id |-> id, off |-> Len(f.pay), poff |-> at, sz |-> Len(pay),
                             v |-> DecodeAs(Ty(S, id), pay)]>>
                        \o [i \in 1..Len(nodes) |-> Shift(nodes[i], at)]]

Leaves == { <<130, 1, <<>>>>, <<130, 2, <<7>>>>, <<16515, 1, <<97, 0>>>>, <<236, 1, <<130>>>>,
            <<2359466, 1, <<130, 129>>>>, <<143, 4, <<192, 0, 0, 0>>>>, <<133, 1, <<161, 255>>>> }   \* 133: not in the schema
Leaf(l) == /\ left > 0 /\ Allowed(l[1])
           /\ LET hd == IdB(l[1]) \o SizeB(Len(l[3]), l[2]) IN
              stack' = [stack EXCEPT ![Len(stack)] = Put(@, hd, hd, l[3], l[3], l[1], <<>>)]
           /\ left' = left - 1 /\ pending' = {}
Containers == {161, 17540, 270532744}
Open(id, unk, w) == /\ left > 0 /\ Len(stack) <= 3 /\ Allowed(id)
                    /\ stack' = Append(stack, Frame(id, unk, w))
                    /\ left' = left - 1 /\ pending' = {}
Close == /\ Len(stack) > 1
         /\ LET f == Top
                b == IdB(f.id) \o (IF f.unk THEN UnkSize(f.w) ELSE SizeB(Len(f.pay), f.w))
                t == IdB(f.id) \o SizeB(Len(f.pay), f.w)
                s == SubSeq(stack, 1, Len(stack) - 1) IN
            /\ stack' = [s EXCEPT ![Len(s)] = Put(@, b, t, f.pay, f.twin, f.id, f.nodes)]
            /\ pending' = pending \cup (IF f.unk THEN {f.id} ELSE {})
         /\ left' = left
Next == \/ \E l \in Leaves : Leaf(l)
        \/ \E id \in Containers, w \in {1, 3} : \E unk \in BOOLEAN : (w = 3 => unk) /\ Open(id, unk, w)
        \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == Len(stack) = 1
Doc == stack[1].pay
Nodes == stack[1].nodes
(* C02 *)
RoundTrip == Done => /\ DocNodes(Doc, 0, S) = Nodes
                     /\ Tiles(S, Nodes, 0, Len(Doc))
(* C08: unknown sizes say the same as explicit ones *)
UnknownEquiv == Done => DocNodes(stack[1].twin, 0, S) = Nodes
(* C02: nor does it matter where the document starts *)
Anywhere == Done => LET ns == DocNodes(<<161, 255>> \o Doc, 2, S) IN
   Len(ns) = Len(Nodes) /\ \A i \in 1..Len(ns) : ns[i] = [Nodes[i] EXCEPT !.off = @ + 2, !.poff = @ + 2]
(* C10: every element that ends before a cut is still there, at its place *)
Prefix == Done => \A cut \in 0..Len(Doc) :
   LET ns == DocNodes(SubSeq(Doc, 1, cut), 0, S) IN
   \A i \in 1..Len(Nodes) :
      (Nodes[i].poff + Nodes[i].sz <= cut /\ cut > 0) => i <= Len(ns) /\ ns[i] = Nodes[i]
(* C09: unknown and padding elements can be dropped from explicit containers *)
StripOne == Done /\ stack[1].twin = Doc => \A i \in 1..Len(Nodes) :
   (Ty(S, Nodes[i].id) \in {"unknown", "void"} /\ Nodes[i].d = 1) =>
      LET d2 == SubSeq(Doc, 1, Nodes[i].off) \o SubSeq(Doc, Nodes[i].poff + Nodes[i].sz + 1, Len(Doc)) IN
      Stripped(S, DocNodes(d2, 0, S)) = Stripped(S, Nodes)
(* C26: a document is explained by the schema iff no element is unknown *)
Explained == Done => (Verified(S, Nodes) <=> \A i \in 1..Len(Nodes) : Nodes[i].id # 133)

Export == IF IOEnv.EXPORT = "1" /\ Done /\ Len(Doc) > 0
          THEN PrintT("@CASE " \o ToJson([d |-> Doc, t |-> stack[1].twin])) ELSE TRUE
=============================================================================
