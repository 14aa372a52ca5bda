------------------------------- MODULE FaultMC -------------------------------
(* Histories of accesses, some of them hit by a failure of the stream.       *)
EXTENDS Fault

Docs == JsonDeserialize(IOEnv.DOCS)
Steps == atoi(IOEnv.STEPS)
MaxObj == atoi(IOEnv.MAXOBJ)
VARIABLES st, ghost, doc, hist, gone, last
vars == <<st, ghost, doc, hist, gone, last>>
view == <<st, ghost, doc, gone, last, Len(hist)>>

Start(k) == LET a == Exp(St0, [op |-> "src", d |-> Docs[k].d]).st IN
            Exp(a, [op |-> "open", src |-> 1, sc |-> Docs[k].sc, s |-> Docs[k].s, hdr |-> Docs[k].hdr, own |-> 0]).st
Quiet == [e |-> [op |-> "none"], r |-> <<"quiet">>]
Init == \E k \in 1..Len(Docs) : doc = k /\ st = Start(k) /\ ghost = Start(k) /\ hist = <<>> /\ gone = FALSE /\ last = Quiet

Objs == 1..Len(st.objs)
Ops ==
  {[op |-> "iter", o |-> o, flat |-> 0] : o \in {x \in Objs : IsCont(st, x) /\ Len(st.its) < 2}}
  \cup {[op |-> "next", it |-> k] : k \in {x \in 1..Len(st.its) : st.its[x].k # Dead}}
  \cup {[op |-> "index", o |-> o, n |-> n] : o \in {x \in Objs : IsCont(st, x)}, n \in {0, 1}}
  \cup {[op |-> "value", o |-> o] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "len", o |-> o] : o \in {x \in Objs : IsCont(st, x)}}
  \cup {[op |-> "size", o |-> o] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "gc", o |-> o, rec |-> 1] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "raw", o |-> o, hd |-> 1] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "dump", o |-> o] : o \in {x \in Objs : IsCont(st, x)}}
(* f: which call of the stream fails (0: none) *)
Step(e, f) ==
  LET x == Exp(st, e)
      hit == f > 0 /\ x.may # {} IN
  /\ Len(x.st.objs) <= MaxObj
  /\ gone' = gone
  /\ hist' = Append(hist, [f |-> f] @@ e)
  /\ IF hit \/ (gone /\ ~NeedsNone(st, e))
     THEN /\ MayFail(st, e, hit, gone)
          /\ st' = Failed(st, e) /\ ghost' = ghost /\ last' = [Quiet EXCEPT !.e = e]
     ELSE /\ st' = x.st /\ ghost' = Exp(ghost, e).st /\ last' = [e |-> e, r |-> x.r]
Next == /\ Len(hist) < Steps
        /\ \/ \E e \in Ops, f \in {0, 1, 2, 3} : Step(e, f)
           \/ /\ ~gone /\ gone' = TRUE /\ hist' = Append(hist, [op |-> "shut", f |-> 0])
              /\ last' = Quiet /\ UNCHANGED <<st, ghost>>
        /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the failures leave: the state of the same history without the
   accesses that failed (up to iterators that are over). *)
NoTrace == /\ st.objs = ghost.objs /\ st.docs = ghost.docs /\ st.srcs = ghost.srcs /\ Len(st.its) = Len(ghost.its)
           /\ \A k \in 1..Len(st.its) : st.its[k].k # Dead => st.its[k] = ghost.its[k]
(* The result of an access after failures is the one on the document opened afresh *)
Kept == \A o \in Objs : st.objs[o].cached =>
   IF IsCont(st, o) THEN [k \in 1..Len(st.objs[o].kids) |-> st.objs[st.objs[o].kids[k]].node] = KidIx(st, o)
   ELSE st.objs[o].v = NsOf(st, o)[st.objs[o].node].v
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps THEN PrintT("@CASE " \o ToJson([doc |-> doc, ops |-> hist])) ELSE TRUE
=============================================================================
