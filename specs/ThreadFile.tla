----------------------------- MODULE ThreadFile -----------------------------
(* What threads sharing one thread-aware file see (C14, C15).                *)
(*                                                                           *)
(* pos[t] is what is known of thread t's own stream:                         *)
(*    >= 0    open, at this position                                         *)
(*    Fresh   not opened yet: the first access opens it at the start         *)
(*    Lost    open, at a position that is not known (after parsing)          *)
(*    Closed  closed by the thread itself                                    *)
(*    Ended   closed by closeAll()                                           *)
(*    Ending  open when a closeAll() began that has not ended yet            *)
(*    Unsaid     nothing is promised (accesses after closing)                   *)
(* "enter" is the entry into the context of the file: all threads go on with *)
(* what it returns.                                                          *)
(* An operation is [a, n, w] (action and arguments); Do gives the results    *)
(* that are right and the position after it.  Results are [ok, v].           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Fresh == -1
Lost == -2
Closed == -3
Ended == -4
Unsaid == -5
Ending == -6

Ok(v) == [ok |-> 1, v |-> v]
Fail == [ok |-> 0, v |-> <<>>]
Free == [ok |-> 2, v |-> <<>>]            \* any result is right
Fine == [ok |-> 3, v |-> <<>>]            \* any result, but no failure

Min2(a, b) == IF a < b THEN a ELSE b
Part(c, p, n) == IF p >= Len(c) THEN <<>> ELSE SubSeq(c, p + 1, IF n < 0 THEN Len(c) ELSE Min2(Len(c), p + n))
RECURSIVE LineEnd(_, _)
LineEnd(c, p) == IF p >= Len(c) THEN Len(c) ELSE IF c[p + 1] = 10 THEN p + 1 ELSE LineEnd(c, p + 1)
RECURSIVE LinesFrom(_, _)
LinesFrom(c, p) == IF p >= Len(c) THEN <<>> ELSE <<SubSeq(c, p + 1, LineEnd(c, p))>> \o LinesFrom(c, LineEnd(c, p))
Beyond(c, p) == IF p > Len(c) THEN p ELSE Len(c)

(* the position an access starts at *)
At(p) == IF p = Fresh THEN 0 ELSE p
(* <<result, new position>> of an operation on a stream that is open (or opens) at p *)
OpenDo(c, p, e) ==
  CASE e.a = "read" -> IF p = Lost THEN <<Fine, Lost>>
         ELSE LET r == Part(c, p, e.n) IN <<Ok(r), p + Len(r)>>
    [] e.a = "line" -> IF p = Lost THEN <<Fine, Lost>> ELSE <<Ok(SubSeq(c, p + 1, LineEnd(c, p))), IF p > Len(c) THEN p ELSE LineEnd(c, p)>>
    [] e.a = "lines" -> IF p = Lost THEN <<Fine, Lost>> ELSE <<Ok(LinesFrom(c, p)), Beyond(c, p)>>
    [] e.a = "able" -> <<Ok(1), p>>       \* readable, not writable
    [] e.a = "tell" -> IF p = Lost THEN <<Fine, Lost>> ELSE <<Ok(p), p>>
    [] e.a = "seek" -> IF e.w = 1 /\ p = Lost THEN <<Free, Lost>>
         ELSE LET q == e.n + (CASE e.w = 0 -> 0 [] e.w = 1 -> p [] e.w = 2 -> Len(c)) IN
              IF q < 0 THEN <<Fail, p>> ELSE <<Ok(q), q>>

Accesses == {"read", "line", "lines", "able", "tell", "seek"}
(* <<right result, positions of all threads after it>> *)
Do(c, pos, t, e) ==
  LET p == pos[t]
      set(q) == [pos EXCEPT ![t] = q]
      \* streams ended by closeAll() may be forgotten
      swept(f) == [u \in DOMAIN f |-> IF f[u] = Ended THEN Closed ELSE IF f[u] = Ending THEN Unsaid ELSE f[u]] IN
  CASE e.a \in Accesses ->
         (CASE p = Ended -> <<Fail, pos>>
            [] p = Ending -> <<Free, pos>>
            [] p \in {Closed, Unsaid} -> <<Free, set(Unsaid)>>
            [] OTHER -> LET r == OpenDo(c, At(p), e) IN <<r[1], set(r[2])>>)
    [] e.a = "parse" -> IF p \in {Closed, Unsaid, Ended, Ending} THEN <<Free, set(IF p \in {Ended, Ending} THEN p ELSE Unsaid)>> ELSE <<Fine, set(Lost)>>
    [] e.a = "closed" ->
         <<CASE p \in {Closed, Ended, Fresh} -> Ok(1) [] p \in {Unsaid, Ending} -> Free [] OTHER -> Ok(0), pos>>
    [] e.a = "enter" -> IF p \in {Closed, Unsaid, Ended, Ending} THEN <<Free, set(IF p \in {Ended, Ending} THEN p ELSE Unsaid)>> ELSE <<Fine, set(At(p))>>
    [] e.a \in {"close", "exit"} -> <<Fine, swept(set(Closed))>>
    [] e.a = "with" -> IF p \in {Closed, Unsaid, Ended, Ending} THEN <<Free, set(IF p \in {Ended, Ending} THEN p ELSE Unsaid)>>
                       ELSE <<OpenDo(c, At(p), [a |-> "read", n |-> e.n])[1], set(Closed)>>
    [] e.a = "cleanup" -> <<Fine, swept(pos)>>
    [] e.a = "closeall" -> <<Fine, [u \in DOMAIN pos |-> IF pos[u] \in {Closed, Fresh} THEN Closed ELSE IF pos[u] = Unsaid THEN Unsaid ELSE Ended]>>
    [] e.a \in {"write", "writelines", "truncate"} -> <<Fail, pos>>

(* a closeAll() begins, which ends every stream that is open now; others may
   be opened before or after *)
Begun(pos) == [u \in DOMAIN pos |-> IF pos[u] >= 0 \/ pos[u] = Lost THEN Ending ELSE IF pos[u] = Fresh THEN Unsaid ELSE pos[u]]

Right(want, got) == want.ok = 2 \/ (want.ok = 3 /\ got.ok = 1) \/ (want.ok = 0 /\ got.ok = 0) \/ (want.ok = 1 /\ got.ok = 1 /\ got.v = want.v)

(* Modes that could write *)
Writes(mode) == \E k \in 1..Len(mode) : mode[k] \in {"w", "a", "x", "+"}
=============================================================================
