----------------------------- MODULE MC_LockGen -----------------------------
(* The schedules of MC_Lock, written out to be replayed with real instances: *)
(* p: instance p goes on; p+10: it is interrupted while it sleeps;           *)
(* p+20: it is killed.                                                       *)
EXTENDS MC_Lock, TLC
CONSTANT Sleeps
VARIABLE h
Count(x) == Cardinality({i \in 1..Len(h) : h[i] = x})
GInit == Init /\ h = << >>
GNext == \E p \in Ps :
           \/ Step(p) /\ h' = Append(h, p) /\ (pc[p] = "sleep" => Cardinality({i \in 1..Len(h) : h[i] = p}) <= 2 * Sleeps)
           \/ pc[p] = "sleep" /\ Interrupt(p) /\ h' = Append(h, p + 10)
           \/ Kill(p) /\ h' = Append(h, p + 20)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Out == IF \A p \in Ps : pc[p] \in {"ended", "gaveup", "killed"} \/ (kills > 0 /\ file /\ pc[p] = "create")
       THEN PrintT("SCHED " \o ToString(h)) ELSE TRUE
=============================================================================
