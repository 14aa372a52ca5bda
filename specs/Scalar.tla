------------------------------- MODULE Scalar -------------------------------
(* Values of EBML elements and their payloads.                              *)
(* A value is a sequence of integers whose first item is its kind, so that  *)
(* any two values can be compared:                                          *)
(*   <<0>>                  undecodable                                     *)
(*   <<1, neg, mag...>>     integer: sign (0/1), magnitude bytes            *)
(*   <<2, b1..b8>>          float: the double's bits; <<2>> is NaN          *)
(*   <<3, cp...>>           text: code points                               *)
(*   <<4, day, sec, us>>    date: days/seconds/microseconds from 2001-01-01 *)
(*   <<5, b...>>            binary                                          *)
(*   <<6>>                  container                                       *)
EXTENDS Bytes

Bad == <<0>>
IsBad(v) == v[1] = 0

-----------------------------------------------------------------------------
(* Integers *)
IntVal(neg, mag) == LET m == Norm(mag) IN <<1, IF m = <<>> THEN 0 ELSE neg>> \o m
ValNeg(v) == v[2]
ValMag(v) == SubSeq(v, 3, Len(v))

DecUInt(b) == IF Len(b) > 8 THEN Bad ELSE IntVal(0, b)
DecSInt(b) == IF Len(b) > 8 THEN Bad
              ELSE IF b # <<>> /\ b[1] >= 128 THEN IntVal(1, Neg2(b))
              ELSE IntVal(0, b)

(* Does integer v fit in n bytes?  (n >= 1) *)
FitsU(v, n) == ValNeg(v) = 0 /\ Len(ValMag(v)) <= n
(* signed: -2^(8n-1) <= v < 2^(8n-1) *)
HalfUp(n) == <<128>> \o Zeros(n - 1)              \* 2^(8n-1)
FitsS(v, n) == IF ValNeg(v) = 1 THEN NatLe(ValMag(v), HalfUp(n))
               ELSE NatLt(ValMag(v), HalfUp(n))
MinU(v) == IF Len(ValMag(v)) = 0 THEN 1 ELSE Len(ValMag(v))
MinS(v) == IF \E n \in 1..8 : FitsS(v, n)
           THEN CHOOSE n \in 1..8 : FitsS(v, n) /\ \A m \in 1..(n - 1) : ~FitsS(v, m)
           ELSE 9
UBytes(v, n) == PadL(ValMag(v), n)
SBytes(v, n) == IF ValNeg(v) = 1 THEN Neg2(PadL(ValMag(v), n)) ELSE PadL(ValMag(v), n)

(* Encodings: a set of acceptable outcomes; "no" stands for a refusal.  An   *)
(* outcome is <<0>> (refused) or <<1>> \o bytes.                             *)
No == <<0>>
Yes(b) == <<1>> \o b
EncUInt(v, n) ==
  IF n = -1 THEN (IF FitsU(v, 8) THEN Yes(UBytes(v, MinU(v))) ELSE No)
  ELSE IF n >= 1 /\ FitsU(v, 8) /\ FitsU(v, n) THEN Yes(UBytes(v, n)) ELSE No
EncSInt(v, n) ==
  IF n = -1 THEN (IF FitsS(v, 8) THEN Yes(SBytes(v, MinS(v))) ELSE No)
  ELSE IF n >= 1 /\ FitsS(v, 8) /\ (n >= MinS(v)) THEN Yes(SBytes(v, n)) ELSE No

-----------------------------------------------------------------------------
(* Floats: bits of single and double precision *)
NaN == <<2>>
F64Val(b) ==                 \* 8 bytes
  LET s == BitsOf(b)
      ex == BitsToInt(SubSeq(s, 2, 12))
  IN IF ex = 2047 /\ ~AllZero(SubSeq(s, 13, 64)) THEN NaN ELSE <<2>> \o b

RECURSIVE LeadZeros(_, _)
LeadZeros(b, i) == IF i > Len(b) \/ b[i] = 1 THEN i - 1 ELSE LeadZeros(b, i + 1)

F32Val(b) ==                 \* 4 bytes, widened exactly
  LET s == BitsOf(b)
      sg == s[1]
      ex == BitsToInt(SubSeq(s, 2, 9))
      mt == SubSeq(s, 10, 32)
      mk(e, m) == <<2>> \o BytesOfBits(<<sg>> \o IntBits(e, 11) \o m)
  IN IF ex = 255 THEN (IF AllZero(mt) THEN mk(2047, Zeros(52)) ELSE NaN)
     ELSE IF ex = 0 THEN
       (IF AllZero(mt) THEN mk(0, Zeros(52))
        ELSE LET z == LeadZeros(mt, 1)          \* value = 0.mt * 2^-126
                 m == SubSeq(mt, z + 2, 23)
             IN mk(1023 - 127 - z, m \o Zeros(52 - Len(m))))
     ELSE mk(ex - 127 + 1023, mt \o Zeros(29))

RECURSIVE BitsInc(_, _)
BitsInc(b, i) == IF i = 0 THEN <<b, 1>>                 \* <<bits, carry>>
                 ELSE IF b[i] = 0 THEN <<[b EXCEPT ![i] = 1], 0>>
                 ELSE BitsInc([b EXCEPT ![i] = 0], i - 1)

(* Nearest single (ties to even) of a double's bits: <<0>> if it overflows,  *)
(* <<1>> if NaN, else <<2>> \o 4 bytes.                                      *)
Narrow(b) ==
  LET s == BitsOf(b)
      sg == s[1]
      ex == BitsToInt(SubSeq(s, 2, 12))
      mt == SubSeq(s, 13, 64)
      mk(e, m) == <<2>> \o BytesOfBits(<<sg>> \o IntBits(e, 8) \o m)
      \* significand 1.mt as 53 bits, value 2^(ex-1023)
      e32 == ex - 1023 + 127                            \* biased single exponent
      shift == IF e32 >= 1 THEN 0 ELSE 1 - e32
      sig == IF shift > 26 THEN Zeros(53) \o <<1>>
             ELSE Zeros(shift) \o <<1>> \o mt
      top == SubSeq(sig, 1, 24)
      guard == sig[25]
      sticky == ~AllZero(SubSeq(sig, 26, Len(sig)))
      up == guard = 1 /\ (sticky \/ top[24] = 1)
      inc == IF up THEN BitsInc(top, 24) ELSE <<top, 0>>
      \* 24-bit integer significand with carry; exponent e (>=1 scale)
      bitsr == IF inc[2] = 1 THEN <<1>> \o SubSeq(inc[1], 1, 23) ELSE inc[1]
      base == IF e32 >= 1 THEN e32 ELSE 1
      er == IF inc[2] = 1 THEN base + 1 ELSE base
      ef == IF bitsr[1] = 1 THEN er ELSE 0               \* subnormal or zero
  IN IF ex = 2047 THEN (IF AllZero(mt) THEN mk(255, Zeros(23)) ELSE <<1>>)
     ELSE IF ex = 0 THEN mk(0, Zeros(23))
     ELSE IF ef >= 255 THEN <<0>>
     ELSE mk(ef, SubSeq(bitsr, 2, 24))

IsZeroF(v) == Len(v) = 9 /\ v[2] \in {0, 128} /\ \A i \in 3..9 : v[i] = 0
FZero == <<2>> \o Zeros(8)
DecFloat(b) == CASE Len(b) = 0 -> FZero [] Len(b) = 4 -> F32Val(b)
                 [] Len(b) = 8 -> F64Val(b) [] OTHER -> Bad
(* Is outcome r an encoding of float v in n bytes? *)
EncFloatOk(v, n, r) ==
  CASE n = -1 /\ IsZeroF(v) -> r = Yes(<<>>)
    [] n = 0 -> r = Yes(<<>>)                     \* documented: always empty
    [] n \in {-1, 8} -> r[1] = 1 /\ Len(r) = 9 /\ DecFloat(Tail(r)) = v
    [] n = 4 -> IF v = NaN THEN r[1] = 1 /\ Len(r) = 5 /\ DecFloat(Tail(r)) = NaN
                ELSE LET w == Narrow(Tail(v)) IN
                     IF w = <<0>> THEN r = No ELSE r = Yes(Tail(w))
    [] OTHER -> r = No
RoundF(v, n) == IF n = 4 /\ v # NaN THEN
                  LET w == Narrow(Tail(v)) IN IF w = <<0>> THEN Bad ELSE F32Val(Tail(w))
                ELSE v

-----------------------------------------------------------------------------
(* Dates: signed nanoseconds in 8 bytes; floor to microseconds *)
FloorDiv(neg, mag, k) ==       \* <<neg, quotient, remainder>>, remainder in 0..k-1
  LET q == DivK(mag, k) IN
  IF neg = 0 \/ q[2] = 0 THEN <<IF q[1] = <<>> THEN 0 ELSE neg, q[1], q[2]>>
  ELSE <<1, AddK(q[1], 1), k - q[2]>>
DecDate(b) ==
  IF Len(b) # 8 THEN Bad
  ELSE LET v == DecSInt(b)
           us == FloorDiv(ValNeg(v), ValMag(v), 1000)
           sc == FloorDiv(us[1], us[2], 1000000)
           dy == FloorDiv(sc[1], sc[2], 86400)
           d == IntOf(dy[2])
       IN <<4, IF dy[1] = 1 THEN -d ELSE d, dy[3], sc[3]>>
(* |days| days + secs + us (day may be negative) as a signed number of ns *)
AddBig(a, k) == AddK(a, k)
DateNs(v) ==                   \* IntVal
  LET day == v[2]
      pos(dd) == AddK(MulK(AddK(MulK(NatOf(dd), 86400), v[3]), 1000000), v[4])
  IN IF day >= 0 THEN IntVal(0, MulK(pos(day), 1000))
     ELSE \* -( |day|*86400e6 - (sec*1e6 + us) ) microseconds
       LET below == 86400 - v[3] IN     \* day = -(k), secs remaining to next day boundary
       LET secs == AddK(MulK(NatOf(-day - 1), 86400), below)   \* whole seconds below zero
           usn == IF v[4] = 0 THEN MulK(secs, 1000000)
                  ELSE AddK(MulK(Pred(secs), 1000000), 1000000 - v[4])
       IN IntVal(1, MulK(usn, 1000))
EncDate(v, n) == IF n \in {-1, 8} THEN EncSInt(DateNs(v), 8) ELSE No

-----------------------------------------------------------------------------
(* Text *)
CutNul(b) == SubSeq(b, 1, IndexOf(b, 0, 1) - 1)
DecString(b) == LET c == CutNul(b) IN
                <<3>> \o [i \in 1..Len(c) |-> IF c[i] < 128 THEN c[i] ELSE 65533]

UtfLen(b) == CASE b < 128 -> 1 [] b >= 194 /\ b < 224 -> 2 [] b >= 224 /\ b < 240 -> 3
               [] b >= 240 /\ b < 245 -> 4 [] OTHER -> 0
Cont(b) == b >= 128 /\ b < 192
RECURSIVE UtfR(_, _, _)
UtfR(b, i, acc) ==
  IF i > Len(b) THEN <<3>> \o acc
  ELSE LET n == UtfLen(b[i]) IN
    IF n = 0 \/ i + n - 1 > Len(b) THEN Bad
    ELSE IF \E j \in 1..(n - 1) : ~Cont(b[i + j]) THEN Bad
    ELSE LET cp == CASE n = 1 -> b[i]
                     [] n = 2 -> (b[i] - 192) * 64 + (b[i+1] - 128)
                     [] n = 3 -> (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
                     [] n = 4 -> (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096
                                 + (b[i+2] - 128) * 64 + (b[i+3] - 128)
         IN IF (n = 3 /\ (cp < 2048 \/ (cp >= 55296 /\ cp < 57344)))
               \/ (n = 4 /\ (cp < 65536 \/ cp > 1114111))
            THEN Bad ELSE UtfR(b, i + n, Append(acc, cp))
DecUnicode(b) == LET c == CutNul(b) IN
                 IF \A i \in 1..Len(c) : c[i] < 128 THEN <<3>> \o c ELSE UtfR(c, 1, <<>>)

UtfOf(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64),
         128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
IsSurrogate(cp) == cp >= 55296 /\ cp < 57344
Utf8(cps) == IF \A i \in 1..Len(cps) : cps[i] < 128 THEN SubSeq(cps, 1, Len(cps))
             ELSE Flatten1([i \in 1..Len(cps) |-> UtfOf(cps[i])])

CutPad(b, n) == IF n = -1 THEN b
                ELSE IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE PadR(b, n, 0)
Printable(c) == IF c >= 32 /\ c < 127 THEN c ELSE 63
EncString(cps, n) == IF n < -1 THEN No
                     ELSE Yes(CutPad([i \in 1..Len(cps) |-> Printable(cps[i])], n))
EncUnicode(cps, n) == IF \E i \in 1..Len(cps) : IsSurrogate(cps[i]) THEN No
                      ELSE Yes(CutPad(Utf8(cps), n))
(* A UTF-8 element's payload of explicit length n: the longest run of whole
   characters that fits, padded.  (The bare encoder may cut anywhere.) *)
RECURSIVE WholeChars(_, _, _)
WholeChars(cps, n, acc) ==
  IF cps = <<>> THEN acc
  ELSE LET u == UtfOf(Head(cps)) IN
       IF Len(acc) + Len(u) > n THEN acc ELSE WholeChars(Tail(cps), n, acc \o u)
EncUniElem(cps, n) == IF \E i \in 1..Len(cps) : IsSurrogate(cps[i]) THEN No
                      ELSE IF n = -1 THEN Yes(Utf8(cps)) ELSE Yes(PadR(WholeChars(cps, n, <<>>), n, 0))
EncBinary(b, n) == IF n = -1 THEN Yes(b) ELSE IF Len(b) <= n THEN Yes(PadR(b, n, 0)) ELSE No

-----------------------------------------------------------------------------
(* Decoding by element type *)
DecodeAs(ty, b) ==
  CASE ty = "int" -> DecSInt(b) [] ty = "uint" -> DecUInt(b) [] ty = "float" -> DecFloat(b)
    [] ty = "date" -> DecDate(b) [] ty = "str" -> DecString(b) [] ty = "uni" -> DecUnicode(b)
    [] ty = "bin" -> <<5>> \o b [] ty = "unknown" -> <<5>> \o b [] ty = "void" -> <<5>>
    [] ty = "master" -> <<6>>
=============================================================================
