------------------------------- MODULE TextMC -------------------------------
(* Every layout of short data: the reference encoder obeys the layout, and   *)
(* the reference decoder undoes it, re-wrapped or not.                       *)
EXTENDS TextCodec, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES o, d, phase
vars == <<o, d, phase>>
Opts == [kind : {"hex"}, cols : {-1, 0, 1, 2, 3, 5}, width : 1..3, offs : {0, 1}, start : {0, 97}, indent : {<<>>, <<32, 9>>}]
        \cup [kind : {"base64"}, cols : {-1, 0, 1, 3, 4, 7, 76}, width : {1}, offs : {0}, start : {0, 97}, indent : {<<>>, <<9>>}]
        \cup [kind : {"ignore"}, cols : {0}, width : {1}, offs : {0}, start : {0}, indent : {<<>>}]
Byte == <<0, 91, 255, 10, 186, 128, 1, 13, 254, 64, 160, 77, 190>>
Init == o \in Opts /\ d = <<>> /\ phase = 0
Next == Len(d) < MaxLen /\ d' = Append(d, Byte[1 + (Len(d) % Len(Byte))]) /\ o' = o /\ phase' = 0
Spec == Init /\ [][Next]_vars
T == Enc(o, d)
Lossless == o.kind # "ignore" => Dec(o.kind, T) = d
Wrapped == (o.kind = "hex" \/ Unbroken(o)) => (o.kind # "ignore" => Dec(o.kind, Rewrapped(T)) = d)
Obeys == Layout(o, T)
Export == PrintT("@CASE " \o ToJson([o |-> o, d |-> d]))
=============================================================================
