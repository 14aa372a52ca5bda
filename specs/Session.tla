------------------------------ MODULE Session ------------------------------
(* Several users of the library in one process (C25).  A user works with one *)
(* schema and one document, by operations whose results may depend on what   *)
(* that user did before, and on nothing else.                                *)
(*                                                                           *)
(* World: objs  the schema objects: what each defines                        *)
(*        reg   the schema object of every name used                         *)
(*        docs  the documents: [s |-> schema object, seen |-> value read]    *)
(*        cur   schema object of every user (0: none)                        *)
(*        doc   document of every user (0: none)                             *)
(* The users share the names of schemata: "n" is redefined by everybody, and *)
(* "common" is defined by whoever needs it first.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

World(A) == [objs |-> <<>>, reg |-> [n |-> 0, common |-> 0], docs |-> <<>>, cur |-> [a \in A |-> 0], doc |-> [a \in A |-> 0]]
Ops == {"define1", "define2", "common", "broken", "open", "read", "clear", "encode", "refused", "convert", "list"}
New(w, v, name) == [w EXCEPT !.objs = Append(@, v), !.reg[name] = Len(w.objs) + 1]
Def(w, a) == w.objs[w.cur[a]]
Meaning(w, a) == w.objs[w.docs[w.doc[a]].s]
Can(w, a, op) ==
  CASE op \in {"open", "encode", "refused", "convert"} -> w.cur[a] # 0
    [] op \in {"read", "clear"} -> w.doc[a] # 0
    [] OTHER -> TRUE
(* [r |-> result, w |-> world] *)
Do(w, a, op) ==
  CASE op = "define1" -> LET x == New(w, 1, "n") IN [r |-> <<"schema", 1>>, w |-> [x EXCEPT !.cur[a] = Len(x.objs)]]
    [] op = "define2" -> LET x == New(w, 2, "n") IN [r |-> <<"schema", 2>>, w |-> [x EXCEPT !.cur[a] = Len(x.objs)]]
    [] op = "common" -> LET x == IF w.reg["common"] # 0 THEN w ELSE New(w, 1, "common") IN
                        [r |-> <<"schema", x.objs[x.reg["common"]]>>, w |-> [x EXCEPT !.cur[a] = x.reg["common"]]]
    [] op = "open" -> [r |-> <<"doc", Def(w, a)>>, w |-> [w EXCEPT !.docs = Append(@, [s |-> w.cur[a], seen |-> FALSE]), !.doc[a] = Len(w.docs) + 1]]
    [] op = "read" -> [r |-> <<"values", Meaning(w, a)>>, w |-> [w EXCEPT !.docs[w.doc[a]].seen = TRUE]]
    [] op = "clear" -> [r |-> <<"cleared", IF w.docs[w.doc[a]].seen THEN 1 ELSE 0>>, w |-> [w EXCEPT !.docs[w.doc[a]].seen = FALSE]]
    [] op \in {"encode", "convert"} -> [r |-> <<op, Def(w, a)>>, w |-> w]
    [] op \in {"broken", "refused"} -> [r |-> <<"error", 0>>, w |-> w]
    [] OTHER -> [r |-> <<op, 0>>, w |-> w]
=============================================================================
