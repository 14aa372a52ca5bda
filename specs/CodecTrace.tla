----------------------------- MODULE CodecTrace -----------------------------
(* Validates recorded calls of ebmlite's encoders and decoders (C03..C07)   *)
(* against Vint and Scalar.  Every event is one call: op, arguments, result. *)
(* Results: <<0>> = an exception was raised; <<1, ...>> = returned data.     *)
EXTENDS Vint, Scalar, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ok(r) == r[1] = 1
DecOk(v) == IF IsBad(v) THEN No ELSE <<1>> \o v        \* expected decode result

(* size: e.v = magnitude bytes (<<>> = 0), e.unk = 1 for None, e.n = width or -1 *)
ChkEncSize(e) ==
  IF e.unk = 1 THEN
     IF e.n = -1 THEN e.r = Yes(<<255>>)
     ELSE IF e.n \in 1..8 THEN e.r = No \/ e.r = Yes(UnknownMark(e.n))
     ELSE TRUE
  ELSE IF e.neg = 1 THEN e.r = No
  ELSE IF e.n = -1 THEN (IF Fits(Norm(e.v), 8) THEN e.r = Yes(SizeBytes(Norm(e.v), MinWidth(Norm(e.v)))) ELSE TRUE)
  ELSE IF e.n \in 1..8 /\ Fits(Norm(e.v), e.n) THEN e.r = Yes(SizeBytes(Norm(e.v), e.n))
  ELSE e.r = No
ChkDecSize(e) ==
  LET x == DecSize(e.d, 1) IN
  IF x.st # "ok" \/ e.d[1] = 0 THEN TRUE       \* truncated: C10; 0x00 starts no descriptor
  ELSE e.r = <<1, x.w, IF x.unk THEN 1 ELSE 0>> \o (IF x.unk THEN <<>> ELSE x.n)
ChkGetLength(e) == Fits(Norm(e.v), 8) => e.r = <<1, MinWidth(Norm(e.v))>>

ChkEncId(e) == IF ValidId(IntOf(e.v)) THEN
                 (IF e.n = -1 THEN e.r = Yes(Norm(e.v)) ELSE TRUE)
               ELSE TRUE
ChkDecId(e) ==
  LET x == DecId(e.d, 1) IN
  CASE x.st = "ok" -> e.r = <<1, x.w>> \o Norm(Slice(e.d, 1, x.w))
    [] x.st = "bad" -> e.r = No
    [] OTHER -> TRUE
ChkValidId(e) == (e.r = <<1>>) <=> (e.neg = 0 /\ Len(Norm(e.v)) <= 4 /\ IntOf(e.v) < Big /\ ValidId(IntOf(e.v)))
ChkCreateId(e) == e.r = <<1>> \o FreeIds(e.cls, e.min, e.max, {e.excl[i] : i \in 1..Len(e.excl)}, e.count)

ChkEncInt(e) == e.r = EncSInt(e.v, e.n)
ChkEncUInt(e) == e.r = EncUInt(e.v, e.n)
ChkDecInt(e) == e.r = DecOk(DecSInt(e.d))
ChkDecUInt(e) == e.r = DecOk(DecUInt(e.d))
ChkEncFloat(e) == EncFloatOk(e.v, e.n, e.r)
ChkDecFloat(e) == e.r = DecOk(DecFloat(e.d))
ChkEncDate(e) == e.r = EncDate(e.v, e.n)
ChkDecDate(e) == e.r = DecOk(DecDate(e.d))
ChkEncStr(e) == e.r = EncString(e.v, e.n)
(* The bare function may cut inside a multi-byte character. *)
ChkEncUni(e) == e.r = EncUnicode(e.v, e.n) \/ e.r = EncUniElem(e.v, e.n)
ChkEncBin(e) == e.r = EncBinary(e.v, e.n)
ChkDecStr(e) == e.r = DecOk(DecString(e.d))
ChkDecUni(e) == LET v == DecUnicode(e.d) IN IF IsBad(v) THEN e.r = No ELSE e.r = <<1>> \o v
(* Decoding through an element read from a document (e.ty, e.d = payload) *)
ChkElem(e) == LET v == DecodeAs(e.ty, e.d) IN IF IsBad(v) THEN e.r = No ELSE e.r = <<1>> \o v

(* Element.encode of a schema's element: header, then the payload *)
Whole(id, r) == IF r = No THEN No ELSE Yes(id \o SizeBytes(NatOf(Len(r) - 1), MinWidth(NatOf(Len(r) - 1))) \o Tail(r))
Cut(e, k) == IF Ok(e.r) /\ Len(e.r) >= k + 1 THEN <<1>> \o SubSeq(e.r, k + 2, Len(e.r)) ELSE No
ChkEncElem(e) ==
  LET payload == SubSeq(e.v, 2, Len(e.v))
      pl == Cut(e, Len(e.id) + 1) IN         \* payload of a short element
  IF ~Ok(e.r) THEN CASE e.ty = "int" -> EncSInt(e.v, e.n) = No [] e.ty = "uint" -> EncUInt(e.v, e.n) = No
                     [] e.ty = "float" -> EncFloatOk(e.v, e.n, No) [] e.ty = "date" -> EncDate(e.v, e.n) = No
                     [] e.ty = "str" -> EncString(payload, e.n) = No [] e.ty = "uni" -> EncUnicode(payload, e.n) = No
                     [] e.ty = "bin" -> EncBinary(payload, e.n) = No
  ELSE /\ e.r = Whole(e.id, pl)
       /\ CASE e.ty = "int" -> pl = EncSInt(e.v, e.n) [] e.ty = "uint" -> pl = EncUInt(e.v, e.n)
            [] e.ty = "float" -> EncFloatOk(e.v, e.n, pl) [] e.ty = "date" -> pl = EncDate(e.v, e.n)
            [] e.ty = "str" -> pl = EncString(payload, e.n) [] e.ty = "uni" -> pl = EncUniElem(payload, e.n)
            [] e.ty = "bin" -> pl = EncBinary(payload, e.n)

Holds(e) ==
  CASE e.op = "encSize" -> ChkEncSize(e) [] e.op = "decSize" -> ChkDecSize(e)
    [] e.op = "getLength" -> ChkGetLength(e)
    [] e.op = "encId" -> ChkEncId(e) [] e.op = "decId" -> ChkDecId(e)
    [] e.op = "validId" -> ChkValidId(e) [] e.op = "createId" -> ChkCreateId(e)
    [] e.op = "encInt" -> ChkEncInt(e) [] e.op = "encUInt" -> ChkEncUInt(e)
    [] e.op = "decInt" -> ChkDecInt(e) [] e.op = "decUInt" -> ChkDecUInt(e)
    [] e.op = "encFloat" -> ChkEncFloat(e) [] e.op = "decFloat" -> ChkDecFloat(e)
    [] e.op = "encDate" -> ChkEncDate(e) [] e.op = "decDate" -> ChkDecDate(e)
    [] e.op = "encStr" -> ChkEncStr(e) [] e.op = "encUni" -> ChkEncUni(e)
    [] e.op = "encBin" -> ChkEncBin(e) [] e.op = "decStr" -> ChkDecStr(e)
    [] e.op = "decUni" -> ChkDecUni(e) [] e.op = "elem" -> ChkElem(e)
    [] e.op = "encElem" -> ChkEncElem(e)
    [] e.op \in {"hang", "crash"} -> FALSE

VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ IF Holds(Trace[i]) THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> <<Trace[i].op>>]))
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
