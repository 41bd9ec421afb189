------------------------------- MODULE CMLock -------------------------------
(* Several instances started with one configuration.  An instance works on   *)
(* the configuration (reads it, tosses, scans, writes anything) only while   *)
(* it holds the lock; the lock is the file <configuration>.busy, and it      *)
(* exists exactly while somebody holds the lock.                             *)
EXTENDS Integers, FiniteSets
CONSTANT Procs          \* the instances, numbered from 1
VARIABLES holder,       \* 0: nobody; p: instance p; -1: locked by the command LOCK
          ph            \* what became of every instance
lockvars == <<holder, ph>>

Free == 0
Manual == -1
LInit == holder = Free /\ ph = [p \in Procs |-> "waiting"]

Acquire(p) == ph[p] = "waiting" /\ holder = Free /\ holder' = p /\ ph' = [ph EXCEPT ![p] = "working"]
Work(p) == holder = p /\ ph[p] = "working" /\ UNCHANGED lockvars
\* all of the work is done before the lock is released
Release(p) == holder = p /\ ph[p] = "working" /\ holder' = Free /\ ph' = [ph EXCEPT ![p] = "finished"]
Exit(p) == ph[p] = "finished" /\ ph' = [ph EXCEPT ![p] = "ended"] /\ holder' = holder
\* an instance that does not get the lock ends without having done anything
GiveUp(p) == ph[p] = "waiting" /\ ph' = [ph EXCEPT ![p] = "gaveup"] /\ holder' = holder
\* a killed instance leaves the lock behind, to be removed with UNLOCK
Kill(p) == ph[p] \in {"waiting", "working", "finished"} /\ ph' = [ph EXCEPT ![p] = "killed"] /\ holder' = holder
LockCmd(p) == ph[p] = "waiting" /\ holder = Free /\ holder' = Manual /\ ph' = [ph EXCEPT ![p] = "ended"]
UnlockCmd(p) == ph[p] = "waiting" /\ holder' = Free /\ ph' = [ph EXCEPT ![p] = "ended"]
                /\ (holder \in {Free, Manual} \/ ph[holder] = "killed")
LNext == \E p \in Procs : Acquire(p) \/ Work(p) \/ Release(p) \/ Exit(p) \/ GiveUp(p) \/ Kill(p) \/ LockCmd(p) \/ UnlockCmd(p)
LSpec == LInit /\ [][LNext]_lockvars

\* nobody works beside the holder, and nobody who ended holds the lock (unless it was killed)
OneAtATime == Cardinality({p \in Procs : ph[p] = "working"}) <= 1
HolderWorks == \A p \in Procs : (ph[p] = "working" => holder = p) /\ (holder = p => ph[p] \in {"working", "killed"})
=============================================================================
