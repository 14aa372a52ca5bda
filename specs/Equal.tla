------------------------------- MODULE Equal --------------------------------
(* Equality of element, document and schema objects (C29).                   *)
(* docs: [sc, so, s, ns] -- bytes read with schema object so (of the         *)
(* definition sc) from offset s; ns are its nodes.                           *)
(* objs: [k, doc, node]: k is "el", "doc" or "schema" (then doc is the       *)
(* schema object).  Every index of objs is a different object.               *)
EXTENDS EbmlTree

VARIABLE cls           \* Classes, all the time (evaluated once)

(* Schemas are equal if they define the same. *)
Classes == TLCEval([a \in 1..Len(Schemas) |-> CHOOSE b \in 1..a : /\ Schemas[b].els = Schemas[a].els
                                                               /\ \A c \in 1..(b - 1) : Schemas[c].els # Schemas[a].els])
SchemaEq(a, b) == cls[a] = cls[b]
IsUnkEl(S, n) == n.id \notin S.ids
Valued == {"int", "uint", "float", "date", "str", "uni"}
IsNum(v) == v # <<>> /\ v[1] = 2
SameValue(v, w) == v = w \/ (IsNum(v) /\ IsNum(w) /\ IsZeroF(v) /\ IsZeroF(w))
(* Nodes of two (possibly the same) documents, read as different objects *)
NodeEq(da, m, db, n) ==
  LET S == Schemas[da.sc]  T == Schemas[db.sc] IN
  IF IsUnkEl(S, m) \/ IsUnkEl(T, n)
  THEN IsUnkEl(S, m) /\ IsUnkEl(T, n) /\ m.id = n.id /\ m.v = n.v
  ELSE m.id = n.id /\ m.off = n.off /\ m.sz = n.sz /\ SchemaEq(da.sc, db.sc)
       /\ (Ty(S, m.id) \in Valued => SameValue(m.v, n.v))
(* Not a number is nobody's equal; whether the very same object is equal to
   itself is left open. *)
Open(da, m, db, n) == m.v = NaN \/ n.v = NaN

ObjEq(docs, sch, objs, a, b) ==         \* TRUE, FALSE
  LET x == objs[a]  y == objs[b] IN
  IF a = b THEN TRUE
  ELSE IF x.k # y.k THEN FALSE
  ELSE IF x.k = "schema" THEN SchemaEq(sch[x.doc], sch[y.doc])
  ELSE NodeEq(docs[x.doc], docs[x.doc].ns[x.node], docs[y.doc], docs[y.doc].ns[y.node])
(* Two documents: not claimed.  NaN: see Open. *)
ObjOpen(docs, objs, a, b) ==
  LET x == objs[a]  y == objs[b] IN
  \/ a # b /\ x.k = "doc" /\ y.k = "doc"
  \/ x.k = "el" /\ y.k = "el" /\ Open(docs[x.doc], docs[x.doc].ns[x.node], docs[y.doc], docs[y.doc].ns[y.node])
=============================================================================
