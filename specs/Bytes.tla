------------------------------- MODULE Bytes -------------------------------
(* Byte sequences (Seq(0..255)) and natural numbers of any size, written    *)
(* big-endian in base 256 without leading zeros (<<>> is zero).  TLC's      *)
(* integers have 32 bits, so every quantity that may exceed 2^30 in ebmlite *)
(* (sizes, 64-bit payloads, nanoseconds) is one of these.                   *)
EXTENDS Integers, Sequences

Byte == 0..255
Big == 1073741824          \* 2^30: cap used when a number becomes a TLC int

Rep(x, n) == [i \in 1..n |-> x]
Zeros(n) == Rep(0, n)

RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN s ELSE IF Head(s) = 0 THEN Norm(Tail(s)) ELSE s

(* Left-pad with zeros to n bytes (n >= Len(s)). *)
PadL(s, n) == Zeros(n - Len(s)) \o s
PadR(s, n, x) == s \o Rep(x, n - Len(s))

Slice(s, from, len) == SubSeq(s, from, from + len - 1)

RECURSIVE LtSame(_, _, _)
LtSame(a, b, i) ==      \* a < b for equal lengths, from index i
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtSame(a, b, i + 1)
NatLt(a, b) == \/ Len(a) < Len(b)
               \/ Len(a) = Len(b) /\ LtSame(a, b, 1)
NatLe(a, b) == ~NatLt(b, a)

RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE Append(NatOf(n \div 256), n % 256)

RECURSIVE IntOfR(_, _, _)
IntOfR(s, i, acc) == IF i > Len(s) THEN acc ELSE IntOfR(s, i + 1, acc * 256 + s[i])
(* The TLC integer of a natural, capped at 2^30. *)
IntOf(s) == LET m == Norm(s) IN
            IF Len(m) > 4 \/ (Len(m) = 4 /\ m[1] >= 64) THEN Big ELSE IntOfR(m, 1, 0)

(* s + k, for 0 <= k < 2^22 *)
RECURSIVE AddR(_, _, _)
AddR(s, i, c) == IF i = 0 THEN NatOf(c)
                 ELSE LET t == s[i] + c IN Append(AddR(s, i - 1, t \div 256), t % 256)
AddK(s, k) == Norm(AddR(s, Len(s), k))

(* s - 1, for s > 0 *)
RECURSIVE DecR(_, _)
DecR(s, i) == IF s[i] > 0 THEN [s EXCEPT ![i] = @ - 1]
              ELSE DecR([s EXCEPT ![i] = 255], i - 1)
Pred(s) == Norm(DecR(s, Len(s)))

(* s * k, for 0 <= k < 2^22 *)
RECURSIVE MulR(_, _, _, _)
MulR(s, k, i, c) == IF i = 0 THEN NatOf(c)
                    ELSE LET t == s[i] * k + c IN Append(MulR(s, k, i - 1, t \div 256), t % 256)
MulK(s, k) == Norm(MulR(s, k, Len(s), 0))

(* <<quotient, remainder>> of s by 0 < k < 2^22 *)
RECURSIVE DivR(_, _, _, _, _)
DivR(s, k, i, q, r) == IF i > Len(s) THEN <<Norm(q), r>>
                       ELSE LET t == r * 256 + s[i] IN DivR(s, k, i + 1, Append(q, t \div k), t % k)
DivK(s, k) == DivR(s, k, 1, <<>>, 0)

(* Two's complement of an n-byte string: bitwise not, plus one, modulo 256^n *)
Inv(s) == [i \in 1..Len(s) |-> 255 - s[i]]
Neg2(s) == LET t == AddK(Norm(Inv(s)), 1) IN
           IF Len(t) > Len(s) THEN Zeros(Len(s)) ELSE PadL(t, Len(s))

(* Bits of a byte string, most significant first, and back. *)
Pow2(n) == 2^n
Bit(b, j) == (b \div 2^(8 - j)) % 2            \* j-th bit of a byte, 1 = MSB
BitsOf(s) == [k \in 1..(8 * Len(s)) |-> Bit(s[((k - 1) \div 8) + 1], ((k - 1) % 8) + 1)]
RECURSIVE BitsToIntR(_, _, _)
BitsToIntR(b, i, acc) == IF i > Len(b) THEN acc ELSE BitsToIntR(b, i + 1, 2 * acc + b[i])
BitsToInt(b) == BitsToIntR(b, 1, 0)
BytesOfBits(b) == [k \in 1..(Len(b) \div 8) |-> BitsToInt(Slice(b, 8 * (k - 1) + 1, 8))]
RECURSIVE IntBits(_, _)
IntBits(n, w) == IF w = 0 THEN <<>> ELSE Append(IntBits(n \div 2, w - 1), n % 2)
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

(* First index >= i of x in s, or Len(s)+1 (by bisection: payloads are long) *)
RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) == IF lo = hi THEN lo
   ELSE LET m == (lo + hi) \div 2 IN
        IF \E j \in lo..m : s[j] = x THEN FindIn(s, x, lo, m) ELSE FindIn(s, x, m + 1, hi)
IndexOf(s, x, i) == IF \E j \in i..Len(s) : s[j] = x THEN FindIn(s, x, i, Len(s)) ELSE Len(s) + 1

(* Concatenation, by halves: the sequences are long, the evaluator's stack is not *)
RECURSIVE FlattenIn(_, _, _)
FlattenIn(ss, lo, hi) == IF lo = hi THEN ss[lo]
   ELSE LET m == (lo + hi) \div 2 IN FlattenIn(ss, lo, m) \o FlattenIn(ss, m + 1, hi)
Flatten1(ss) == IF Len(ss) = 0 THEN <<>> ELSE FlattenIn(ss, 1, Len(ss))

IsSeqPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
============================================================================
