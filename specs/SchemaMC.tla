------------------------------ MODULE SchemaMC ------------------------------
(* All definitions of up to IOEnv.STEPS items from a small vocabulary.       *)
EXTENDS SchemaDef, Json, IOUtils

Steps == atoi(IOEnv.STEPS)
VARIABLES items, st, prev
vars == <<items, st, prev>>
view == <<st, prev, Len(items)>>
X == <<88>>
Y == <<89>>
One == <<49>>
Zero == <<48>>
A1 == <<48, 120, 65, 49>>
B2 == <<48, 120, 56, 50>>
Opt(c, k, v) == IF c THEN <<[k |-> k, v |-> v]>> ELSE <<>>
Ats == {Opt(i # None, "id", i) \o Opt(n # None, "name", n) \o x :
          i \in {None, A1, B2}, n \in {None, X, Y}, x \in {<<>>, <<[k |-> "multiple", v |-> One]>>, <<[k |-> "precache", v |-> Zero]>>}}
TagSet == {"MasterElement", "UIntegerElement", "IntegerElement", "BinaryElement"}
Odd == {"FooElement", "Note"}
(* the items that may hold the next one: the last one and those it is nested in *)
RECURSIVE Path(_)
Path(k) == IF k = 0 THEN {0} ELSE {k} \cup Path(items[k].p)
Parents == {p \in Path(Len(items)) : p = 0 \/ items[p].tag = "MasterElement"}
Init == items = <<>> /\ st = St0 /\ prev = St0
Next == /\ Len(items) < Steps /\ st.res # "fail"
        /\ \E t \in TagSet \cup Odd, p \in Parents, at \in Ats :
             /\ t \notin Odd \/ at = <<[k |-> "id", v |-> A1], [k |-> "name", v |-> X]>>
             /\ items' = Append(items, [tag |-> t, p |-> p, at |-> at])
             /\ st' = Add(st, items'[Len(items')], FALSE) /\ prev' = st
Spec == Init /\ [][Next]_vars
(* names and IDs identify elements *)
Unique == \A i, j \in 1..Len(st.els) : i # j => st.els[i].id # st.els[j].id /\ st.els[i].nm # st.els[j].nm
(* a mention changes nothing but the parent's children *)
Frozen == \A i \in 1..Len(prev.els) : [prev.els[i] EXCEPT !.ch = {}] = [st.els[i] EXCEPT !.ch = {}] /\ prev.els[i].ch \subseteq st.els[i].ch
Grows == Len(st.els) <= Len(prev.els) + 1 /\ prev.root \subseteq st.root
Sticky == prev.res = "fail" => st.res = "fail"
(* every child is an element *)
Closed == \A i \in 1..Len(st.els) : \A c \in st.els[i].ch : Known(st, c)
Export == IF IOEnv.EXPORT = "1" /\ (Len(items) = Steps \/ st.res = "fail") THEN PrintT("@CASE " \o ToJson(items)) ELSE TRUE
=============================================================================
