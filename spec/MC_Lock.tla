------------------------------- MODULE MC_Lock -------------------------------
(* The way an instance takes and releases the lock, operation by operation:  *)
(* the lock file is created only if it does not exist, an instance that does *)
(* not succeed sleeps and tries again unless it was interrupted.  Checked:   *)
(* this is CMLock, and every instance that is not interrupted or killed gets *)
(* its turn if nobody is killed.                                             *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, NWork, Kills
VARIABLES file, pc, ctrlc, work, kills, own
vars == <<file, pc, ctrlc, work, kills, own>>
Ps == 1..N
Init == file = FALSE /\ pc = [p \in Ps |-> "create"] /\ ctrlc = [p \in Ps |-> FALSE]
        /\ work = [p \in Ps |-> 0] /\ kills = 0 /\ own = 0
Create(p) == /\ pc[p] = "create"
             /\ IF file THEN pc' = [pc EXCEPT ![p] = "sleep"] /\ UNCHANGED <<file, own>>
                ELSE pc' = [pc EXCEPT ![p] = "work"] /\ file' = TRUE /\ own' = p
             /\ UNCHANGED <<ctrlc, work, kills>>
Sleep(p) == /\ pc[p] = "sleep" /\ pc' = [pc EXCEPT ![p] = IF ctrlc[p] THEN "gaveup" ELSE "create"]
            /\ UNCHANGED <<file, ctrlc, work, kills, own>>
Works(p) == /\ pc[p] = "work" /\ work[p] < NWork /\ work' = [work EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<file, pc, ctrlc, kills, own>>
Unlink(p) == /\ pc[p] = "work" /\ (work[p] = NWork \/ ctrlc[p])
             /\ pc' = [pc EXCEPT ![p] = "finished"] /\ file' = FALSE /\ own' = 0
             /\ UNCHANGED <<ctrlc, work, kills>>
End(p) == pc[p] = "finished" /\ pc' = [pc EXCEPT ![p] = "ended"] /\ UNCHANGED <<file, ctrlc, work, kills, own>>
Interrupt(p) == /\ ~ctrlc[p] /\ pc[p] \in {"create", "sleep", "work"} /\ ctrlc' = [ctrlc EXCEPT ![p] = TRUE]
                /\ UNCHANGED <<file, pc, work, kills, own>>
Kill(p) == /\ kills < Kills /\ pc[p] \in {"create", "sleep", "work", "finished"}
           /\ kills' = kills + 1 /\ pc' = [pc EXCEPT ![p] = "killed"] /\ UNCHANGED <<file, ctrlc, work, own>>
Step(p) == Create(p) \/ Sleep(p) \/ Works(p) \/ Unlink(p) \/ End(p)
Next == \E p \in Ps : Step(p) \/ Interrupt(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars
\* a waiting instance that looks at the lock again and again finds it free at some time
Fair == Spec /\ \A p \in Ps : WF_vars(Step(p)) /\ SF_vars(pc[p] = "create" /\ ~file /\ Create(p))

L == INSTANCE CMLock WITH Procs <- Ps, holder <- own,
       ph <- [p \in Ps |-> IF pc[p] \in {"create", "sleep"} THEN "waiting" ELSE IF pc[p] = "work" THEN "working" ELSE pc[p]]
Refines == L!LSpec
Exclusive == L!OneAtATime /\ L!HolderWorks /\ (file <=> own # 0)
\* nothing stays locked, nobody is forgotten
Turn == \A p \in Ps : <>(pc[p] \in {"ended", "gaveup", "killed"}) \/ kills > 0
Done == (kills = 0 /\ \A p \in Ps : pc[p] \in {"ended", "gaveup"}) => ~file
NoWorkLost == \A p \in Ps : (pc[p] \in {"finished", "ended"} /\ ~ctrlc[p]) => work[p] = NWork
GaveUp == \A p \in Ps : pc[p] = "gaveup" => ctrlc[p] /\ work[p] = 0
=============================================================================
