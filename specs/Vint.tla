-------------------------------- MODULE Vint --------------------------------
(* EBML variable-length integers: element IDs (1..4 bytes, marker kept) and *)
(* element sizes (1..8 bytes, marker removed, all data bits 1 = unknown).   *)
EXTENDS Bytes

(* Width announced by a first byte: position of its leading 1 bit. *)
VWidth(b) == CASE b >= 128 -> 1 [] b >= 64 -> 2 [] b >= 32 -> 3 [] b >= 16 -> 4
               [] b >= 8 -> 5 [] b >= 4 -> 6 [] b >= 2 -> 7 [] OTHER -> 8
Marker(w) == 2^(8 - w)

-----------------------------------------------------------------------------
(* Sizes *)

(* The width-w descriptor whose data bits are all 1: 2^(7w) - 1. *)
AllOnes(w) == Norm(<<Marker(w) - 1>> \o Rep(255, w - 1))
UnknownMark(w) == <<2 * Marker(w) - 1>> \o Rep(255, w - 1)
Fits(n, w) == NatLt(n, AllOnes(w))              \* representable and not reserved
MaxSize == Pred(AllOnes(8))                      \* 2^56 - 2
MinWidth(n) == IF \E w \in 1..8 : Fits(n, w)
               THEN CHOOSE w \in 1..8 : Fits(n, w) /\ \A v \in 1..(w - 1) : ~Fits(n, v)
               ELSE 9
SizeBytes(n, w) == LET p == PadL(n, w) IN [p EXCEPT ![1] = @ + Marker(w)]

(* Decoding at index p of d (1-based): a record, st \in {"ok","cut"} *)
DecSize(d, p) ==
  IF p > Len(d) THEN [st |-> "cut", w |-> 0, unk |-> FALSE, n |-> <<>>]
  ELSE LET b == d[p]
           w == VWidth(b)
       IN IF p + w - 1 > Len(d) THEN [st |-> "cut", w |-> w, unk |-> FALSE, n |-> <<>>]
          ELSE LET v == Norm(<<IF b = 0 THEN 0 ELSE b - Marker(w)>> \o Slice(d, p + 1, w - 1))
               IN [st |-> "ok", w |-> w, unk |-> v = AllOnes(w), n |-> v]

(* Theorems checked by MC: a size survives its encoding in every width that holds it. *)
SizeRoundTrip(n, w) == Fits(n, w) =>
   LET r == DecSize(SizeBytes(n, w), 1) IN r.st = "ok" /\ r.w = w /\ ~r.unk /\ r.n = n

-----------------------------------------------------------------------------
(* IDs.  An ID's value includes its marker, so its bytes are its number.     *)

IdWidthOf(n) == Len(Norm(n))
DecId(d, p) ==
  IF p > Len(d) THEN [st |-> "eof", w |-> 0, id |-> 0]
  ELSE IF d[p] < 16 THEN [st |-> "bad", w |-> 0, id |-> 0]
  ELSE LET w == VWidth(d[p]) IN
       IF p + w - 1 > Len(d) THEN [st |-> "cut", w |-> w, id |-> 0]
       ELSE [st |-> "ok", w |-> w, id |-> IntOf(Slice(d, p, w))]

(* The documented class ranges. *)
IdClass == [A |-> <<129, 254>>, B |-> <<16511, 32766>>,
            C |-> <<2113535, 4194302>>, D |-> <<270532607, 536870910>>]
ValidId(n) == \E c \in {"A", "B", "C", "D"} : IdClass[c][1] <= n /\ n <= IdClass[c][2]
ClassWidth == [A |-> 1, B |-> 2, C |-> 3, D |-> 4]

(* Lowest `count' numbers of lo..hi outside excl, in increasing order. *)
RECURSIVE LowestFree(_, _, _, _)
LowestFree(lo, hi, excl, count) ==
  IF count <= 0 \/ lo > hi THEN <<>>
  ELSE IF lo \in excl THEN LowestFree(lo + 1, hi, excl, count)
  ELSE <<lo>> \o LowestFree(lo + 1, hi, excl, count - 1)
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
FreeIds(cls, minId, maxId, excl, count) ==
  LowestFree(MaxOf(IdClass[cls][1], minId), MinOf(IdClass[cls][2], maxId), excl, count)
=============================================================================
