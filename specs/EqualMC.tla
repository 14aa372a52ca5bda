------------------------------ MODULE EqualMC -------------------------------
(* Two readings of a document (of IOEnv.DOCS), one of them edited: a byte of *)
(* a payload changes, or the schema is loaded again (or another one).        *)
(* Equality is an equivalence; an edit is seen in just the elements that it  *)
(* concerns.                                                                 *)
EXTENDS Equal

Docs == JsonDeserialize(IOEnv.DOCS)
Steps == atoi(IOEnv.STEPS)
VARIABLES doc, d, sc, edits, One, Two
vars == <<cls, doc, d, sc, edits, One, Two>>
Read(k, x, j) == TLCEval([sc |-> j, so |-> 1, s |-> Docs[k].s, ns |-> DocNodes(x, Docs[k].s, Schemas[j])])

Init == cls = Classes /\ \E k \in 1..Len(Docs) : /\ doc = k /\ d = Docs[k].d /\ sc = Docs[k].sc /\ edits = {}
                               /\ One = Read(k, Docs[k].d, Docs[k].sc) /\ Two = Read(k, Docs[k].d, Docs[k].sc)
Leaf(n) == ~IsMaster(Schemas[sc], n.id)
Edit == /\ Cardinality(edits) < Steps
        /\ \E i \in 1..Len(Two.ns) : LET n == Two.ns[i] IN
             /\ Leaf(n) /\ n.sz > 0
             /\ \E at \in {n.poff + 1, n.poff + n.sz} :
                  /\ d' = [d EXCEPT ![at] = IF @ = 65 THEN 66 ELSE 65]
                  /\ edits' = edits \cup {i}
        /\ Two' = Read(doc, d', sc)
        /\ UNCHANGED <<cls, doc, sc, One>>
Reload == /\ sc' \in {Docs[doc].sc, Len(Schemas) - 1, Len(Schemas)} /\ sc' # sc
          /\ Two' = Read(doc, d, sc')
          /\ UNCHANGED <<cls, doc, d, edits, One>>
Next == Edit \/ Reload
Spec == Init /\ [][Next]_vars

N == Len(One.ns)
DocAt(k) == IF k <= N THEN One ELSE Two
NodeAt(k) == IF k <= N THEN One.ns[k] ELSE Two.ns[k - N]
Eq(a, b) == a = b \/ NodeEq(DocAt(a), NodeAt(a), DocAt(b), NodeAt(b))
Sound == \A i \in 1..Len(Two.ns) : ~IsErr(Two.ns[i]) /\ ~IsBad(Two.ns[i].v)
Equivalence == Sound =>
  \A a \in 1..(N + Len(Two.ns)) : /\ Eq(a, a)
     /\ \A b \in 1..(N + Len(Two.ns)) : /\ Eq(a, b) = Eq(b, a)
                               /\ Eq(a, b) => \A c \in 1..(N + Len(Two.ns)) : Eq(b, c) => Eq(a, c)
(* Within one reading, no two known elements are equal. *)
Distinct == \A i, j \in 1..Len(One.ns) :
  (i # j /\ One.ns[i].id \in Schemas[Docs[doc].sc].ids) => ~Eq(i, j)
(* What was not edited is still equal; what was is not, if its value counts. *)
Edited == (Sound /\ sc = Docs[doc].sc /\ Len(One.ns) = Len(Two.ns)) =>
  \A i \in 1..Len(One.ns) :
     LET ty == Ty(Schemas[sc], One.ns[i].id) IN
     Eq(i, Len(One.ns) + i) <=> (ty \notin Valued \cup {"unknown"} \/ SameValue(One.ns[i].v, Two.ns[i].v))
Unedited == (Sound /\ sc = Docs[doc].sc) => \A i \in 1..Len(One.ns) : i \notin edits => Eq(i, Len(One.ns) + i)
(* Another schema: only unknown elements can be equal. *)
Foreign == (Sound /\ ~SchemaEq(sc, Docs[doc].sc)) =>
  \A i \in 1..Len(One.ns), j \in 1..Len(Two.ns) :
     Eq(i, Len(One.ns) + j) => One.ns[i].id \notin Schemas[Docs[doc].sc].ids /\ Two.ns[j].id \notin Schemas[sc].ids
Export == IF Sound THEN PrintT("@CASE " \o ToJson([doc |-> doc, d |-> d, sc |-> sc])) ELSE TRUE
=============================================================================
