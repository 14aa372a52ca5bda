------------------------------ MODULE ThreadMC ------------------------------
(* All interleavings of whole operations of IOEnv.THREADS threads on one     *)
(* thread-aware file, IOEnv.STEPS operations long.                           *)
EXTENDS ThreadFile, Json, IOUtils

N == atoi(IOEnv.THREADS)
Steps == atoi(IOEnv.STEPS)
Content == <<161, 10, 7, 10, 9>>
VARIABLES pos, hist, last
vars == <<pos, hist, last>>
view == <<pos, last>>
Ops == {[a |-> "read", n |-> 2, w |-> 0], [a |-> "read", n |-> -1, w |-> 0], [a |-> "line", n |-> 0, w |-> 0],
        [a |-> "seek", n |-> 1, w |-> 0], [a |-> "seek", n |-> -2, w |-> 1], [a |-> "seek", n |-> -1, w |-> 2],
        [a |-> "tell", n |-> 0, w |-> 0], [a |-> "closed", n |-> 0, w |-> 0],
        [a |-> "close", n |-> 0, w |-> 0], [a |-> "cleanup", n |-> 0, w |-> 0], [a |-> "closeall", n |-> 0, w |-> 0],
        [a |-> "able", n |-> 0, w |-> 0], [a |-> "enter", n |-> 0, w |-> 0], [a |-> "exit", n |-> 0, w |-> 0],
        [a |-> "write", n |-> 0, w |-> 0]}
(* thread 1 makes the file: its stream is open from the beginning *)
Init == pos = [t \in 1..N |-> IF t = 1 THEN 0 ELSE Fresh] /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < Steps
        /\ \E t \in 1..N, e \in Ops : LET x == Do(Content, pos, t, e) IN
             /\ x[1].ok # 2                    \* nothing unspecified
             /\ pos' = x[2] /\ hist' = Append(hist, [t |-> t, e |-> e])
             /\ last' = [t |-> t, a |-> e.a, pos |-> pos, r |-> x[1]]
Spec == Init /\ [][Next]_vars

(* C14: an operation of a thread changes nothing for another thread, unless it ends all streams *)
Isolation == (last # <<>> /\ last.a \notin {"closeall"}) =>
   \A u \in (1..N) \ {last.t} : pos[u] = last.pos[u] \/ (last.pos[u] = Ended /\ pos[u] = Closed)
(* C14: its result is that of a private file: it depends on nothing but its own position *)
Private == (last # <<>> /\ last.pos[last.t] >= Fresh) =>
   last.r = Do(Content, [t \in 1..N |-> IF t = last.t THEN last.pos[t] ELSE Fresh], last.t,
               hist[Len(hist)].e)[1]
(* C15 *)
Closing == last # <<>> =>
   /\ (last.a \in {"close", "exit"} => pos[last.t] = Closed)
   /\ (last.a = "closeall" => \A u \in 1..N : pos[u] < Fresh)
   /\ (last.a = "write" => last.r = Fail /\ pos = last.pos)
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps THEN PrintT("@CASE " \o ToJson(hist)) ELSE TRUE
=============================================================================
