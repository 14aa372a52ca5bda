------------------------------ MODULE TextTrace ------------------------------
(* Validates recorded encodings and decodings of binary data as text.        *)
EXTENDS TextCodec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
Clauses(e) ==
  CASE e.op = "enc" ->        \* text returned, text written to a stream, number returned for it
         IF e.r # 1 THEN <<"failed">>
         ELSE OneIf("data", e.o.kind = "ignore" \/ Dec(e.o.kind, e.text) = e.d)
              \o OneIf("layout", Layout(e.o, e.text))
              \o OneIf("stream", e.stext = e.text)
              \o OneIf("number", e.n = Len(e.stext))
    [] e.op = "dec" ->        \* a (possibly re-wrapped) text: bytes returned, written, and their number
         IF e.o.kind # "ignore" /\ Dec(e.o.kind, e.text) # e.d THEN Assert(FALSE, <<"generated text is wrong", i>>)
         ELSE IF e.r # 1 THEN <<"failed">>
         ELSE OneIf("data", e.got = (IF e.o.kind = "ignore" THEN <<>> ELSE e.d))
              \o OneIf("stream", e.sgot = e.got)
              \o OneIf("number", e.n = Len(e.sgot))
    [] OTHER -> <<e.op>>
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET bad == Clauses(Trace[i]) IN IF bad = <<>> THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))
Spec == Init /\ [][Next]_<<i>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
