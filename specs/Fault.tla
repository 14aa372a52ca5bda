------------------------------- MODULE Fault -------------------------------
(* Accesses to a document while its stream fails (C28).                      *)
(*                                                                           *)
(* An access during which a call of the stream raised an error (hit = 1)     *)
(* either raises an error itself or gives its result all the same.  If it    *)
(* raises, nothing has happened: the state is the one before; only an        *)
(* iterator that raised is over.  Once the stream is closed by its owner     *)
(* (gone), whatever needs the stream fails, and what was read stays there.   *)
EXTENDS Access

Dead == -1
Failed(st, e) == IF e.op = "next" THEN [st EXCEPT !.its[e.it].k = Dead] ELSE st
Live(st, e) == e.op = "next" => st.its[e.it].k # Dead
(* accesses that never need the stream, in this state *)
NeedsNone(st, e) ==
  \/ e.op \in {"gc", "info", "iter"}
  \/ e.op = "value" /\ st.objs[e.o].cached
  \/ e.op = "index" /\ ~IsDoc(st, e.o) /\ st.objs[e.o].cached
(* May the access fail?  hit: a call of the stream failed during it *)
MayFail(st, e, hit, gone) == hit \/ (gone /\ ~NeedsNone(st, e))
=============================================================================
