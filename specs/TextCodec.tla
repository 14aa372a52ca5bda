------------------------------ MODULE TextCodec ------------------------------
(* Binary data as text (C21): base64 and hexadecimal, under layout options.  *)
(* Text is a sequence of character codes.  Options o:                        *)
(*   kind  "hex", "base64", "ignore"                                         *)
(*   cols  bytes (hex) or characters (base64) per line; 0, -1 (None): no     *)
(*         line breaks                                                       *)
(*   width bytes per word (hex)     offs  1: each line starts with its offset*)
(*   start offset of the first byte       indent text before each line       *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Ws == {9, 10, 11, 12, 13, 32}
Idx(s, P(_)) == SelectSeq([k \in 1..Len(s) |-> k], P)
Words(t) ==
  LET st == Idx(t, LAMBDA k : t[k] \notin Ws /\ (k = 1 \/ t[k - 1] \in Ws))
      en == Idx(t, LAMBDA k : t[k] \notin Ws /\ (k = Len(t) \/ t[k + 1] \in Ws))
  IN [k \in 1..Len(st) |-> SubSeq(t, st[k], en[k])]
Lines(t) ==
  LET nl == <<0>> \o Idx(t, LAMBDA k : t[k] = 10) \o <<Len(t) + 1>>
  IN [k \in 1..(Len(nl) - 1) |-> SubSeq(t, nl[k] + 1, nl[k + 1] - 1)]
Blank(t) == \A k \in 1..Len(t) : t[k] \in Ws
NoText == <<-1>>                         \* not a text of the encoding

(* Hexadecimal; words with a bracket are offsets *)
Bracketed(w) == \E k \in 1..Len(w) : w[k] \in {91, 93}
HexDigit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
HexWord(w) == Len(w) % 2 = 0 /\ \A k \in 1..Len(w) : HexDigit(w[k]) >= 0
BytesOfHex(cs) == [k \in 1..(Len(cs) \div 2) |-> 16 * HexDigit(cs[2 * k - 1]) + HexDigit(cs[2 * k])]
DecHex(t) ==
  LET ws == SelectSeq(Words(t), LAMBDA w : ~Bracketed(w)) IN
  IF \E k \in 1..Len(ws) : ~HexWord(ws[k]) THEN NoText ELSE BytesOfHex(FlattenSeq(ws))

B64(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
DecB64(t) ==
  LET cs == SelectSeq(t, LAMBDA c : c \notin Ws)
      n == Len(cs)
      pad == IF n = 0 \/ cs[n] # 61 THEN 0 ELSE IF cs[n - 1] # 61 THEN 1 ELSE 2
      at(i) == IF cs[i] = 61 THEN 0 ELSE B64(cs[i]) IN
  IF n % 4 # 0 \/ \E k \in 1..(n - pad) : B64(cs[k]) < 0 THEN NoText
  ELSE [i \in 1..((n \div 4) * 3 - pad) |->
         LET q == 4 * ((i - 1) \div 3) IN
         CASE i % 3 = 1 -> at(q + 1) * 4 + at(q + 2) \div 16
           [] i % 3 = 2 -> (at(q + 2) % 16) * 16 + at(q + 3) \div 4
           [] OTHER -> (at(q + 3) % 4) * 64 + at(q + 4)]
Dec(kind, t) == CASE kind = "hex" -> DecHex(t) [] kind = "base64" -> DecB64(t) [] OTHER -> <<>>

(* [digits] *)
RECURSIVE Num(_, _)
Num(w, k) == IF k = 0 THEN 0 ELSE 10 * Num(w, k - 1) + (w[k] - 48)
IsOffset(w, n) == /\ Len(w) > 2 /\ w[1] = 91 /\ w[Len(w)] = 93
                  /\ \A k \in 2..(Len(w) - 1) : w[k] \in 48..57
                  /\ Num(SubSeq(w, 2, Len(w) - 1), Len(w) - 2) = n

Unbroken(o) == o.cols \in {0, -1}
BytesIn(l) == Len(DecHex(l))
RECURSIVE Before(_, _)
Before(ls, k) == IF k = 1 THEN 0 ELSE Before(ls, k - 1) + BytesIn(ls[k - 1])
Indented(o, l) == /\ IsPrefix(o.indent, l) /\ Len(l) > Len(o.indent) /\ l[Len(o.indent) + 1] \notin Ws
Layout(o, t) ==
  LET ls == SelectSeq(Lines(t), LAMBDA l : ~Blank(l)) IN
  CASE o.kind = "ignore" -> t = <<>>
    [] o.kind = "base64" ->
         IF Unbroken(o) THEN \A k \in 1..Len(t) : t[k] \notin {10, 13}
         ELSE \A k \in 1..Len(ls) : /\ Indented(o, ls[k]) /\ Len(ls[k]) - Len(o.indent) <= o.cols
                                      /\ (k < Len(ls) => Len(ls[k]) - Len(o.indent) = o.cols)
    [] OTHER ->
         LET words == SelectSeq(Words(t), LAMBDA w : ~Bracketed(w)) IN
         \* words have the width asked for, except where a line or the data ends
         /\ \A k \in 1..Len(words) : Len(words[k]) <= 2 * o.width
         /\ \A l \in 1..Len(ls) :
              LET ws == SelectSeq(Words(ls[l]), LAMBDA w : ~Bracketed(w)) n == Len(ws) IN
              \A k \in 1..n : (k < n \/ (l < Len(ls) /\ o.cols % o.width = 0)) /\ (k > 1 \/ Unbroken(o) \/ o.cols % o.width = 0)
                              => Len(ws[k]) = 2 * o.width
         /\ IF Unbroken(o) THEN (\A k \in 1..Len(t) : t[k] \notin {10, 13, 91, 93})
            ELSE \A k \in 1..Len(ls) :
                   LET ws == Words(ls[k]) IN
                   /\ Indented(o, ls[k])
                   /\ BytesIn(ls[k]) <= o.cols
                   /\ (k < Len(ls) => BytesIn(ls[k]) = o.cols)
                   /\ IF o.offs = 1 THEN IsOffset(ws[1], o.start + Before(ls, k)) /\ \A j \in 2..Len(ws) : ~Bracketed(ws[j])
                      ELSE \A j \in 1..Len(ws) : ~Bracketed(ws[j])

(* An encoder *)
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(b) == <<HexD(b \div 16), HexD(b % 16)>>
B64C(n) == CASE n < 26 -> 65 + n [] n < 52 -> 71 + n [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
EncHex(o, d) == FlattenSeq([k \in 1..Len(d) |->
  (IF ~Unbroken(o) /\ (k - 1) % o.cols = 0
   THEN <<10>> \o o.indent \o (IF o.offs = 1 THEN <<91>> \o Decimal(o.start + k - 1) \o <<93, 32>> ELSE <<>>)
   ELSE IF (k - 1) % o.width = 0 THEN <<32>> ELSE <<>>) \o HexOf(d[k])])
At0(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
B64Group(d, k) == LET a == d[k]  b == At0(d, k + 1)  c == At0(d, k + 2) IN
  <<B64C(a \div 4), B64C((a % 4) * 16 + b \div 16),
    IF k + 1 > Len(d) THEN 61 ELSE B64C((b % 16) * 4 + c \div 64), IF k + 2 > Len(d) THEN 61 ELSE B64C(c % 64)>>
EncB64(o, d) ==
  LET cs == FlattenSeq([g \in 1..((Len(d) + 2) \div 3) |-> B64Group(d, 3 * g - 2)]) IN
  IF Unbroken(o) THEN cs
  ELSE FlattenSeq([l \in 1..((Len(cs) + o.cols - 1) \div o.cols) |->
         <<10>> \o o.indent \o SubSeq(cs, (l - 1) * o.cols + 1, IF l * o.cols > Len(cs) THEN Len(cs) ELSE l * o.cols)])
Enc(o, d) == CASE o.kind = "hex" -> EncHex(o, d) [] o.kind = "base64" -> EncB64(o, d) [] OTHER -> <<>>
(* the same text wrapped elsewhere: a line break before every word *)
Rewrapped(t) == FlattenSeq([k \in 1..Len(Words(t)) |-> <<10, 9>> \o Words(t)[k]])
=============================================================================
