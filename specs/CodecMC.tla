------------------------------- MODULE CodecMC -------------------------------
(* Exhaustive exploration of the boundary cases of Vint and Scalar.  Each    *)
(* state is one call an ebmlite user can make; the invariants are the        *)
(* properties C03..C07 on the specification itself, and every state is       *)
(* exported as a case to be executed by the real code.                       *)
EXTENDS Vint, Scalar, TLC, Json, IOUtils

KIND == IOEnv.KIND
DEEP == IOEnv.DEEP = "1"

P2(k) == Norm(<<2^(k % 8)>> \o Zeros(k \div 8))           \* 2^k
Near(b) == {b, AddK(b, 1), AddK(b, 2), AddK(b, 77)} \cup
           (IF b = <<>> THEN {} ELSE {Pred(b)}) \cup
           (IF NatLt(<<1>>, b) THEN {Pred(Pred(b))} ELSE {}) \cup
           (IF NatLt(<<2>>, b) THEN {Pred(Pred(Pred(b)))} ELSE {})
Exps(top) == IF DEEP THEN 0..top ELSE {k \in 0..top : k % 8 \in {0, 7} \/ k % 7 = 0 \/ k > top - 2 \/ k < 3}
Bounds(top) == {<<>>} \cup UNION {Near(P2(k)) : k \in Exps(top)}
               \cup UNION {Near(Norm(Rep(x, n))) : x \in {85, 127, 128, 170, 254}, n \in 1..((top \div 8))}

VARIABLES c
vars == c

-----------------------------------------------------------------------------
SizeCases == [op : {"encSize"}, v : Bounds(57), unk : {0}, neg : {0}, n : -1..9]
       \cup [op : {"encSize"}, v : {<<>>}, unk : {1}, neg : {0}, n : {-1, 1, 2, 3, 4, 5, 6, 7, 8}]
       \cup [op : {"encSize"}, v : {<<1>>, <<127>>, <<1, 0>>}, unk : {0}, neg : {1}, n : {-1, 1, 2, 8}]
       \cup [op : {"getLength"}, v : Bounds(56)]
Fill == {0, 1, 127, 128, 254, 255}
Tails(w) == IF w = 1 THEN {<<>>} ELSE
   {Rep(x, w - 1) : x \in Fill} \cup {<<x>> \o Rep(y, w - 2) : x \in Fill, y \in {0, 255}}
   \cup {Rep(y, w - 2) \o <<x>> : x \in Fill, y \in {0, 255}}
Heads == IF DEEP THEN 1..255 ELSE UNION {{Marker(w), Marker(w) + 1, 2 * Marker(w) - 1, 2 * Marker(w) - 2} : w \in 1..8} \ {0}
DecSizeCases == {[op |-> "decSize", d |-> <<h>> \o t \o x] : h \in {h \in Heads : h > 0}, t \in {}, x \in {}}
        \cup UNION {{[op |-> "decSize", d |-> <<h>> \o t \o <<171>>] : t \in Tails(VWidth(h))} : h \in {h \in Heads : h > 0}}
        \cup {[op |-> "decSize", d |-> <<h, 0, 0, 0, 0, 0, 0, 0>>] : h \in 1..255}

IdNums == {0, 1, 15, 16, 127, 128, 129, 253, 254, 255, 256, 16383, 16384, 16385, 16510, 16511, 16512,
           17539, 32765, 32766, 32767, 32768, 65535, 65536, 2097151, 2097152, 2113534, 2113535, 2113536,
           4194301, 4194302, 4194303, 4194304, 268435455, 268435456, 270532606, 270532607, 270532608,
           440786851, 536870909, 536870910, 536870911, 536870912, 1073741823}
IdCases == {[op |-> "validId", v |-> NatOf(n), neg |-> 0] : n \in IdNums}
   \cup {[op |-> "validId", v |-> NatOf(n), neg |-> 1] : n \in {1, 129, 16512}}
   \cup {[op |-> "validId", v |-> v, neg |-> 0] : v \in Bounds(70)}
   \cup {[op |-> "encId", v |-> NatOf(n), n |-> -1] : n \in {m \in IdNums : ValidId(m)}}
   \cup {[op |-> "decId", d |-> <<h>> \o Rep(x, 4)] : h \in 0..255, x \in {0, 1, 127, 255}}

Signed == {IntVal(s, m) : s \in {0, 1}, m \in Bounds(64)}
IntCases == [op : {"encInt", "encUInt"}, v : Signed, n : -1..8]
Payloads == {<<>>} \cup UNION {UNION {{<<h>> \o Rep(x, n - 1), Rep(x, n - 1) \o <<h>>} : h \in {0, 1, 127, 128, 129, 255}, x \in {0, 127, 128, 255}} : n \in 1..8}
DecIntCases == [op : {"decInt", "decUInt"}, d : Payloads]
        \cup [op : {"elem"}, ty : {"int", "uint"}, d : Payloads]

-----------------------------------------------------------------------------
F64Exps == {0, 1, 2, 873, 874, 875, 896, 897, 898, 1022, 1023, 1024, 1149, 1150, 1151, 2045, 2046, 2047}
           \cup (IF DEEP THEN 870..900 \cup 1140..1155 ELSE {})
F64Mants == {Zeros(52), Rep(1, 52), <<1>> \o Zeros(51), Zeros(51) \o <<1>>,
             Rep(1, 23) \o Zeros(29), Rep(1, 23) \o <<1>> \o Zeros(28), Rep(1, 24) \o Zeros(27) \o <<1>>,
             Zeros(22) \o <<1>> \o Zeros(29), Zeros(22) \o <<1, 1>> \o Zeros(28), Zeros(23) \o <<1>> \o Zeros(28),
             Zeros(23) \o <<1>> \o Zeros(27) \o <<1>>, Zeros(24) \o Rep(1, 28),
             [k \in 1..52 |-> k % 2]}
F64Pats == {BytesOfBits(<<s>> \o IntBits(e, 11) \o m) : s \in {0, 1}, e \in F64Exps, m \in F64Mants}
F32Pats == {BytesOfBits(<<s>> \o IntBits(e, 8) \o m) : s \in {0, 1}, e \in {0, 1, 2, 126, 127, 128, 253, 254, 255},
            m \in {Zeros(23), Rep(1, 23), <<1>> \o Zeros(22), Zeros(22) \o <<1>>, Zeros(10) \o <<1>> \o Zeros(12), [k \in 1..23 |-> k % 2]}}
FloatCases == {[op |-> "encFloat", v |-> F64Val(b), n |-> n] : b \in F64Pats, n \in {-1, 0, 4, 8}}
   \cup {[op |-> "encFloat", v |-> F64Val(b), n |-> n] : b \in {<<63, 240, 0, 0, 0, 0, 0, 0>>, Zeros(8)}, n \in {1, 2, 3, 5, 6, 7, 9, 16}}
   \cup {[op |-> o, d |-> b, ty |-> "float"] : o \in {"decFloat", "elem"}, b \in F32Pats \cup F64Pats \cup {Rep(64, n) : n \in 0..12}}
DateDays == {0, 1, -1, 365, -365, 8000, -36525, 106751, 106750, -106751, -106752, 106752, -106753, 730000, -730000}
DateSecs == {0, 1, 59, 86399, 43200, 85636, 763, 764, 85635}
DateUs == {0, 1, 999999, 500000, 999, 854775, 145224, 145225, 854776}
DateCases == {[op |-> "encDate", v |-> <<4, d, s, u>>, n |-> n] : d \in DateDays, s \in DateSecs, u \in DateUs, n \in {-1, 8}}
   \cup {[op |-> "encDate", v |-> <<4, 7, 3, 5>>, n |-> n] : n \in {0, 1, 4, 7, 9}}
   \cup {[op |-> o, d |-> b, ty |-> "date"] : o \in {"decDate", "elem"},
          b \in UNION {{<<h>> \o Rep(x, 6) \o <<t>> : t \in {0, 1, 231, 232, 255}} : h \in {0, 1, 127, 128, 255}, x \in {0, 255, 119}}
                \cup {Rep(3, n) : n \in {0, 1, 4, 7, 9}}}

-----------------------------------------------------------------------------
Chars == {32, 65, 126, 63, 31, 9, 10, 127, 128, 233, 8364, 65279, 65535, 65536, 128013, 1114111, 2047, 2048, 55295, 57344}
Texts == {<<>>} \cup {<<a>> : a \in Chars} \cup {<<a, b>> : a, b \in {65, 126, 9, 233, 8364, 128013}}
         \cup {<<a, b, a>> : a, b \in {65, 233, 128013}}
Blobs == {<<>>} \cup {<<a>> : a \in {0, 1, 128, 255}} \cup {<<a, b>> : a, b \in {0, 65, 255}} \cup {<<0, 0, 0>>, <<65, 0, 66, 0>>}
Raw == {<<>>} \cup {<<a>> : a \in 0..255} \cup {<<a, b>> : a, b \in {0, 65, 127, 128, 195, 169, 255}}
       \cup {<<a, b, x>> : a, b, x \in {0, 65, 128, 195, 226, 130, 172}}
       \cup {<<240, 159, 144, 141>>, <<240, 128, 128, 128>>, <<237, 160, 128>>, <<244, 144, 128, 128>>, <<192, 128>>,
             <<226, 130, 172, 0, 255>>, <<239, 187, 191>>, <<239, 187, 191, 65>>, <<255, 254>>, <<239, 191, 190>>, <<65, 66, 0, 67, 0>>, <<240, 159, 144>>}
TextCases == [op : {"encStr", "encUni"}, v : Texts, n : {-1, 0, 1, 2, 3, 4, 5, 8}]
   \cup [op : {"encBin"}, v : Blobs, n : {-1, 0, 1, 2, 3, 4, 8}]
   \cup [op : {"decStr", "decUni"}, d : Raw]
   \cup [op : {"elem"}, ty : {"str", "uni", "bin", "void", "unknown"}, d : Raw]

Cases == CASE KIND = "size" -> SizeCases \cup DecSizeCases
           [] KIND = "id" -> IdCases
           [] KIND = "int" -> IntCases \cup DecIntCases
           [] KIND = "float" -> FloatCases \cup DateCases
           [] KIND = "text" -> TextCases

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_vars

Export == PrintT("@CASE " \o ToJson(c))

-----------------------------------------------------------------------------
(* The properties on the specification itself *)
Sound ==
  CASE c.op = "encSize" /\ c.unk = 0 /\ c.neg = 0 ->
         /\ c.n \in 1..8 => SizeRoundTrip(c.v, c.n)
         /\ LET w == MinWidth(c.v) IN
              /\ w <= 8 => SizeRoundTrip(c.v, w)
              /\ \A x \in 1..8 : (x < w) => ~Fits(c.v, x)
              /\ (w = 9) <=> NatLt(MaxSize, c.v)
    [] c.op = "encSize" /\ c.unk = 1 -> c.n \in 1..8 => DecSize(UnknownMark(c.n), 1).unk
    [] c.op = "decSize" -> LET x == DecSize(c.d, 1) IN
         /\ x.st = "ok"
         /\ x.unk <=> (\A k \in 2..x.w : c.d[k] = 255) /\ c.d[1] = 2 * Marker(x.w) - 1
         /\ ~x.unk => SizeBytes(x.n, x.w) = SubSeq(c.d, 1, x.w)
    [] c.op = "validId" -> LET n == IntOf(c.v) IN
         (c.neg = 0 /\ Len(c.v) <= 4 /\ ValidId(n)) =>
              LET x == DecId(Norm(c.v) \o <<0, 0, 0>>, 1) IN x.st = "ok" /\ x.id = n /\ x.w = Len(Norm(c.v))
    [] c.op \in {"encInt", "encUInt"} ->
         LET e == IF c.op = "encInt" THEN EncSInt(c.v, c.n) ELSE EncUInt(c.v, c.n)
             d(b) == IF c.op = "encInt" THEN DecSInt(b) ELSE DecUInt(b)
         IN e # No => /\ d(Tail(e)) = c.v
                      /\ c.n # -1 => Len(e) - 1 = c.n
                      /\ (c.n = -1 /\ Len(e) > 2) => d(SubSeq(e, 3, Len(e))) # c.v
    [] c.op \in {"decInt"} -> LET v == DecSInt(c.d) IN c.d # <<>> => EncSInt(v, Len(c.d)) = Yes(c.d)
    [] c.op \in {"decUInt"} -> LET v == DecUInt(c.d) IN c.d # <<>> => EncUInt(v, Len(c.d)) = Yes(c.d)
    [] c.op = "encFloat" /\ c.n = 4 /\ c.v # NaN ->
         LET r == RoundF(c.v, 4) IN IsBad(r) \/ RoundF(r, 4) = r
    [] c.op = "decFloat" /\ Len(c.d) = 4 -> LET v == F32Val(c.d) IN v # NaN => Narrow(Tail(v)) = <<2>> \o c.d
    [] c.op = "encDate" -> LET e == EncDate(c.v, c.n) IN e # No => DecDate(Tail(e)) = c.v
    [] c.op = "decDate" /\ Len(c.d) = 8 -> LET v == DecDate(c.d)
                                               ns == DecSInt(c.d) IN
         \* encoding the decoded date gives the same microsecond, not later than the original
         LET e == EncDate(v, 8) IN e = No \/ DecDate(Tail(e)) = v
    [] c.op = "encUni" /\ c.n = -1 -> DecUnicode(Tail(EncUnicode(c.v, -1))) = <<3>> \o CutNul(c.v)
    [] c.op = "encStr" -> LET e == EncString(c.v, c.n)
                              w == IF c.n = -1 \/ c.n > Len(c.v) THEN Len(c.v) ELSE c.n IN
         DecString(Tail(e)) = <<3>> \o [k \in 1..w |-> Printable(c.v[k])]
    [] OTHER -> TRUE
=============================================================================
