-------------------------------- MODULE XmlMC --------------------------------
(* XML documents, built element by element, and options: what is wanted is   *)
(* what the reference writer writes, and converting that to XML and back     *)
(* gives the same again.  Schema 1 of IOEnv.SCHEMAS (tree.fixed_schema).     *)
EXTENDS XmlMap

Budget == atoi(IOEnv.BUDGET)
S == Schemas[1]
VARIABLES stack, left, o
vars == <<stack, left, o>>
X(tag, id, sl, size, v) == [tag |-> tag, id |-> id, sl |-> sl, size |-> size, v |-> v, kids |-> <<>>]
N(n) == <<1, 0, n>>
Leaves == {X("Num", -1, -1, -1, N(7)), X("Num", -1, 2, 3, N(1)), X("Text", -1, -1, -1, <<3, 97, 32>>), X("Text", -1, 3, 4, <<3, 98>>),
           X("Void", -1, -1, 2, <<5>>), X("Mystery", 133, -1, -1, <<5, 1, 2>>), X("Mystery", -1, -1, -1, <<5, 1>>), X("#", -1, -1, -1, <<>>),
           X("Other", 16517, 1, 3, <<5, 9>>)}
Opens == {X("Box", -1, -1, -1, <<>>), X("Box", -1, 2, -1, <<>>), X("Bare", -1, -1, -1, <<>>)}
Init == /\ stack = <<X("", -1, -1, -1, <<>>)>> /\ left = Budget
        /\ o \in [sl : {-1, 1, 3}, headers : {0, 1}, unknown : {0, 1}]
Add(s, x) == [s EXCEPT ![Len(s)].kids = Append(@, x)]
Next == /\ o' = o
        /\ \/ \E x \in Leaves : left > 0 /\ stack' = Add(stack, x) /\ left' = left - 1
           \/ \E x \in Opens : left > 0 /\ Len(stack) < 3 /\ stack' = Append(stack, x) /\ left' = left - 1
           \/ Len(stack) > 1 /\ stack' = Add(SubSeq(stack, 1, Len(stack) - 1), stack[Len(stack)]) /\ left' = left
Spec == Init /\ [][Next]_vars
Done == Len(stack) = 1
Xs == stack[1].kids
Want == WantedAll(S, Xs, o, 1)
Refuse == IsXRefused(Want)
HB == LET f == HeaderWanted(S) IN [tag |-> "EBML", id |-> -1, sl |-> -1, size |-> -1, v |-> <<>>,
          kids |-> [k \in 1..(Len(f) - 1) |-> X(S.els[CHOOSE i \in 1..Len(S.els) : S.els[i].id = f[k + 1].id].nm, -1, -1, -1, f[k + 1].v)]]
Out == Write(S, IF AddsHeader(S, Xs, o, 1) THEN <<HB>> \o Xs ELSE Xs, DefaultWidth(o))
Nodes == DocNodes(Out, 0, S)
Written == (Done /\ ~Refuse /\ o.sl # 1) => SayWanted(Nodes, Want) /\ SizesOk(Nodes, Want) /\ Tiles(S, Nodes, 0, Len(Out))
                                            /\ (~AddsHeader(S, Xs, o, 1) \/ o.sl = -1 => WidthsOk(Nodes, Want))
RoundTrip == (Done /\ ~Refuse /\ o.sl = -1 /\ o.headers = 0 /\ o.unknown = 1) =>
   \A sizes \in {0, 1} :
     LET x2 == XmlOf(S, Nodes, TopLevel(Nodes), sizes) IN
     SameDoc(S, Nodes, DocNodes(Write(S, x2, 0), 0, S), [sizes |-> sizes])
Export == IF Done /\ Xs # <<>> /\ IOEnv.EXPORT = "1" THEN PrintT("@CASE " \o ToJson([xs |-> Xs, o |-> o])) ELSE TRUE
=============================================================================
