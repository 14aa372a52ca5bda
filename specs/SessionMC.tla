----------------------------- MODULE SessionMC -----------------------------
(* All short sessions; every user also lives in a world alone.               *)
EXTENDS Session, Json, IOUtils

Steps == atoi(IOEnv.STEPS)
Users == 1..atoi(IOEnv.USERS)
VARIABLES w, alone, hist, last
vars == <<w, alone, hist, last>>
view == <<w, alone, last, Len(hist)>>
Init == w = World(Users) /\ alone = [a \in Users |-> World({a})] /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < Steps
        /\ \E a \in Users, op \in Ops :
             /\ Can(w, a, op)
             /\ LET x == Do(w, a, op)
                    y == Do(alone[a], a, op) IN
                /\ w' = x.w /\ alone' = [alone EXCEPT ![a] = y.w]
                /\ last' = [was |-> w, r |-> x.r, same |-> x.r = y.r]
                /\ hist' = Append(hist, [a |-> a, op |-> op])
Spec == Init /\ [][Next]_vars
NoInfluence == last # <<>> => last.same
CanAlone == \A a \in Users, op \in Ops : Can(w, a, op) = Can(alone[a], a, op)
Frozen == last # <<>> => SubSeq(w.objs, 1, Len(last.was.objs)) = last.was.objs
NoTrace == (last # <<>> /\ last.r[1] = "error") => w = last.was
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = Steps /\ {hist[k].a : k \in 1..Steps} = Users THEN PrintT("@CASE " \o ToJson(hist)) ELSE TRUE
=============================================================================
