----------------------------- MODULE ThreadImpl -----------------------------
(* The algorithm of threaded_file.py in steps: streams are kept per thread   *)
(* ID; the IDs of finished threads are used again.  Checked against the      *)
(* abstract file: whatever the interleaving, every read of a thread returns  *)
(* what the thread's own file would.                                         *)
(* Threads 1..N run programs of operations; thread N starts only after       *)
(* thread 1 has finished, with its ID.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

N == 3
Len1 == atoi(IOEnv.STEPS)                  \* operations per thread
Threads == 1..N
Ident(t) == IF t = N THEN 1 ELSE t
Idents == {Ident(t) : t \in Threads}
OpSet == {"read", "close", "cleanup"}

VARIABLES streams,      \* all streams ever opened: [pos, closed]
          table,        \* ident -> stream index, 0 = no entry
          owner,        \* ident -> thread, 0 = none
          ready, lock,
          pc, op, left, \* per thread
          cur,          \* stream being used
          todo,         \* idents cleanup() still has to look at
          own, err      \* reads of the thread since it opened its file; wrong results
vars == <<streams, table, owner, ready, lock, pc, op, left, cur, todo, own, err>>

Init == /\ streams = <<[pos |-> 0, closed |-> FALSE]>>   \* opened by thread 1
        /\ table = [d \in Idents |-> IF d = 1 THEN 1 ELSE 0]
        /\ owner = [d \in Idents |-> IF d = 1 THEN 1 ELSE 0]
        /\ ready = TRUE /\ lock = 0
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
        /\ left = [t \in Threads |-> Len1]
        /\ cur = [t \in Threads |-> 0] /\ todo = [t \in Threads |-> {}]
        /\ own = [t \in Threads |-> 0] /\ err = FALSE

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Finished(t) == pc[t] = "idle" /\ left[t] = 0
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ (t = N => Finished(1))
            /\ \E o \in OpSet : /\ op' = [op EXCEPT ![t] = o]
                                /\ Go(t, IF o = "cleanup" THEN "cwait" ELSE "wait")
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<streams, table, owner, ready, lock, cur, todo, own, err>>
(* getThreadStream *)
Wait(t) == /\ pc[t] = "wait" /\ ready /\ Go(t, "find")
           /\ UNCHANGED <<streams, table, owner, ready, lock, op, left, cur, todo, own, err>>
Find(t) == /\ pc[t] = "find"
           /\ IF owner[Ident(t)] = t /\ table[Ident(t)] # 0
              THEN cur' = [cur EXCEPT ![t] = table[Ident(t)]] /\ Go(t, "use") /\ UNCHANGED streams
              ELSE /\ streams' = Append(streams, [pos |-> 0, closed |-> FALSE])
                   /\ cur' = [cur EXCEPT ![t] = Len(streams) + 1] /\ Go(t, "enter")
           /\ UNCHANGED <<table, owner, ready, lock, op, left, todo, own, err>>
Enter(t) == /\ pc[t] = "enter" /\ lock = 0 /\ lock' = t /\ Go(t, "own")
            /\ UNCHANGED <<streams, table, owner, ready, op, left, cur, todo, own, err>>
Own(t) == /\ pc[t] = "own" /\ owner' = [owner EXCEPT ![Ident(t)] = t] /\ Go(t, "store")
          /\ UNCHANGED <<streams, table, ready, lock, op, left, cur, todo, own, err>>
Store(t) == /\ pc[t] = "store" /\ table' = [table EXCEPT ![Ident(t)] = cur[t]]
            /\ own' = [own EXCEPT ![t] = 0] /\ lock' = 0 /\ Go(t, "use")
            /\ UNCHANGED <<streams, owner, ready, op, left, cur, todo, err>>
(* the operation itself *)
Use(t) == /\ pc[t] = "use"
          /\ IF op[t] = "read"
             THEN /\ err' = (err \/ streams[cur[t]].closed \/ streams[cur[t]].pos # own[t])
                  /\ streams' = [streams EXCEPT ![cur[t]].pos = @ + 1]
                  /\ own' = [own EXCEPT ![t] = @ + 1] /\ Go(t, "idle")
             ELSE /\ streams' = [streams EXCEPT ![cur[t]].closed = TRUE]
                  /\ Go(t, "cwait") /\ UNCHANGED <<own, err>>
          /\ UNCHANGED <<table, owner, ready, lock, op, left, cur, todo>>
(* cleanup *)
CWait(t) == /\ pc[t] = "cwait" /\ ready /\ Go(t, "cclear")
            /\ UNCHANGED <<streams, table, owner, ready, lock, op, left, cur, todo, own, err>>
CClear(t) == /\ pc[t] = "cclear" /\ ready' = FALSE /\ Go(t, "center")
             /\ UNCHANGED <<streams, table, owner, lock, op, left, cur, todo, own, err>>
CEnter(t) == /\ pc[t] = "center" /\ lock = 0 /\ lock' = t
             /\ todo' = [todo EXCEPT ![t] = {d \in Idents : table[d] # 0}] /\ Go(t, "cloop")
             /\ UNCHANGED <<streams, table, owner, ready, op, left, cur, own, err>>
CLoop(t) == /\ pc[t] = "cloop" /\ todo[t] # {}
            /\ \E d \in todo[t] : /\ todo' = [todo EXCEPT ![t] = @ \ {d}]
                                  /\ table' = IF table[d] # 0 /\ streams[table[d]].closed THEN [table EXCEPT ![d] = 0] ELSE table
            /\ UNCHANGED <<streams, owner, ready, lock, pc, op, left, cur, own, err>>
CDone(t) == /\ pc[t] = "cloop" /\ todo[t] = {} /\ lock' = 0 /\ Go(t, "cset")
            /\ UNCHANGED <<streams, table, owner, ready, op, left, cur, todo, own, err>>
CSet(t) == /\ pc[t] = "cset" /\ ready' = TRUE /\ Go(t, "idle")
           /\ UNCHANGED <<streams, table, owner, lock, op, left, cur, todo, own, err>>
Next == \E t \in Threads : Begin(t) \/ Wait(t) \/ Find(t) \/ Enter(t) \/ Own(t) \/ Store(t) \/ Use(t)
                           \/ CWait(t) \/ CClear(t) \/ CEnter(t) \/ CLoop(t) \/ CDone(t) \/ CSet(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == ~err
(* a thread that is not using its file is not blocked by others forever *)
NoStuck == (\A t \in Threads : ~ENABLED Begin(t) /\ pc[t] # "idle") => ENABLED Next
AllDone == <>(\A t \in Threads : Finished(t))
=============================================================================
