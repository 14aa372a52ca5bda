----------------------------- MODULE SchemaTrace -----------------------------
(* Validates recorded loads of schema definitions.                           *)
EXTENDS SchemaDef, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
OneIf(name, ok) == IF ok THEN <<>> ELSE <<name>>
SetOf(s) == {s[k] : k \in 1..Len(s)}
Got(e) == {[id |-> x.id, nm |-> x.nm, ty |-> x.ty, mu |-> x.mu = 1, ma |-> x.ma = 1, pc |-> x.pc = 1, ln |-> x.ln, gl |-> x.gl = 1,
            df |-> x.df, ch |-> SetOf(x.ch)] : x \in SetOf(e.els)}
Flat(x) == [x EXCEPT !.ch = {}]
Clauses(e) ==
  CASE e.op = "def" ->
         LET st == Load(e.items, e.old = 1)
             same == IF e.old = 1 THEN {Flat(x) : x \in Got(e)} = {Flat(x) : x \in Elements(st)} ELSE Got(e) = Elements(st) IN
         IF st.res = "fail" THEN OneIf("accepted", e.ok = 0)
         ELSE IF e.ok = 0 THEN OneIf("refused", st.res = "free")
         ELSE OneIf("elements", same) \o OneIf("root", e.old = 1 \/ SetOf(e.root) = st.root)
              \o OneIf("access", e.access = 1)
              \o OneIf("name", e.name = NameOf(st, e.arg, e.base) \/ NameOf(st, e.arg, e.base) = <<>>)
              \o OneIf("type", e.type = DocType(st))
              \o OneIf("version", e.version = DocVersion(st))
    [] e.op = "eq" -> LET q == Equal(Load(e.a, FALSE), Load(e.b, FALSE)) IN
         OneIf("equal", q = "free" \/ e.r = (IF q = "yes" THEN 1 ELSE 0)) \o OneIf("unequal", q = "free" \/ e.ne = (IF q = "yes" THEN 0 ELSE 1))
    [] OTHER -> <<e.op>>
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET bad == Clauses(Trace[i]) IN
           IF bad = <<>> THEN TRUE
           ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad, detail |-> IF Trace[i].op = "def" THEN [want |-> Load(Trace[i].items, Trace[i].old = 1).res] ELSE <<>>]))
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
