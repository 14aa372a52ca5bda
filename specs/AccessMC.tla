------------------------------ MODULE AccessMC ------------------------------
(* All histories of accesses to a small document (IOEnv.DOCS: a list of      *)
(* [sc, d, s, hdr]), up to IOEnv.STEPS accesses, MaxObj objects and two      *)
(* iterators.  Histories of full length are exported and executed.           *)
EXTENDS Access

Docs == JsonDeserialize(IOEnv.DOCS)
Steps == atoi(IOEnv.STEPS)
MaxObj == atoi(IOEnv.MAXOBJ)
VARIABLES st, doc, hist, last
vars == <<st, doc, hist, last>>
view == <<st, doc, last>>

Start(k) == LET a == Exp(St0, [op |-> "src", d |-> Docs[k].d]).st IN
            Exp(a, [op |-> "open", src |-> 1, sc |-> Docs[k].sc, s |-> Docs[k].s, hdr |-> Docs[k].hdr, own |-> 0]).st
Quiet == [op |-> "none", before |-> <<>>, r |-> 0]
Init == \E k \in 1..Len(Docs) : doc = k /\ st = Start(k) /\ hist = <<>> /\ last = Quiet

Objs == 1..Len(st.objs)
Ops ==
  {[op |-> "iter", o |-> o, flat |-> 0] : o \in {x \in Objs : IsCont(st, x) /\ Len(st.its) < 2}}
  \cup {[op |-> "iter", o |-> 1, flat |-> 1] : x \in {y \in {0} : Len(st.its) < 2}}
  \cup {[op |-> "next", it |-> k] : k \in 1..Len(st.its)}
  \cup {[op |-> "index", o |-> o, n |-> n] : o \in {x \in Objs : IsCont(st, x)}, n \in {0, 1}}
  \cup {[op |-> "value", o |-> o] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "len", o |-> o] : o \in {x \in Objs : IsCont(st, x)}}
  \cup {[op |-> "gc", o |-> o, rec |-> r] : o \in {x \in Objs : ~IsDoc(st, x)}, r \in {0, 1}}
  \cup {[op |-> "raw", o |-> o, hd |-> 1] : o \in {x \in Objs : ~IsDoc(st, x)}}
  \cup {[op |-> "dump", o |-> o] : o \in {x \in Objs : IsCont(st, x)}}
Next == /\ Len(hist) < Steps
        /\ \E e \in Ops : LET x == Exp(st, e) IN
             /\ Len(x.st.objs) <= MaxObj
             /\ st' = x.st
             /\ hist' = Append(hist, e)
             /\ last' = [op |-> e.op, r |-> IF e.op = "gc" THEN x.r ELSE 0,
                         before |-> IF e.op = "gc" THEN {o \in Objs : st.objs[o].cached} ELSE {}]
        /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The result of an access depends on the element only, not on the history:
   what the element object says is what its node says. *)
Truth == \A o \in Objs : st.objs[o].cached =>
   IF IsCont(st, o) THEN [k \in 1..Len(st.objs[o].kids) |-> st.objs[st.objs[o].kids[k]].node] = KidIx(st, o)
   ELSE st.objs[o].v = NsOf(st, o)[st.objs[o].node].v
(* What is cached is not read again *)
NoReread == \A o \in Objs : st.objs[o].cached => Exp(st, [op |-> "value", o |-> o]).may = {}
(* A value is read within its element *)
Local == \A o \in Objs : (~IsCont(st, o)) =>
   /\ Exp(st, [op |-> "value", o |-> o]).may \subseteq PayB(NsOf(st, o), st.objs[o].node)
   /\ Exp(st, [op |-> "raw", o |-> o, hd |-> 1]).may \subseteq ElB(NsOf(st, o), st.objs[o].node)
(* Clearing drops as many values as it says *)
GcCounts == last.op = "gc" => last.r = Cardinality(last.before) - Cardinality({o \in Objs : st.objs[o].cached})
(* Cached objects form a forest: no object is the child of two containers *)
Forest == \A a \in Objs, b \in Objs : a # b => SetOf(st.objs[a].kids) \cap SetOf(st.objs[b].kids) = {}
(* Walking the top level reads no payload that is not pre-read *)
Lazy == LET n == NsOf(st, 1) IN
   \A i \in SetOf(KidIx(st, 1)) :
      (~(n[i].id \in SOf(st, 1).ids /\ SOf(st, 1).pc[n[i].id]) /\ ~IsUnk(DOf(st, 1), n, i)
        /\ \A j \in 1..Len(n) : IsUnk(DOf(st, 1), n, j) => FALSE) =>
      Parse(DOf(st, 1), n, SOf(st, 1), i) \cap PayB(n, i) = {}
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps THEN PrintT("@CASE " \o ToJson([doc |-> doc, ops |-> hist])) ELSE TRUE
=============================================================================
