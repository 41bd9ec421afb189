---------------------------- MODULE CMLockTrace ----------------------------
(* Recorded schedules of real instances are behaviours of CMLock.  Each event *)
(* is one operation of one instance: what it was (k), and whether the lock    *)
(* file existed before (b0) and after it (b1).                               *)
(*   k: work   reads or writes a file other than the lock                    *)
(*      lock   touches the lock file        other  looks whether a file exists *)
(*      sleep  waits                        late   files change after release *)
(*      exit   ends with status rc          kill   is killed      stuck       *)
EXTENDS CMStr, CMLock

Data == JsonDeserialize(IOEnv.CM_DATA)
Owned == JsonDeserialize(IOEnv.CM_OWNED)
Scenarios == Data.scenarios

VARIABLES sc, k, fail

S == Scenarios[sc]
P(s) == s.procs       \* [cmd, intr: interrupted while it waited, sure: it has to do its work]

\* what an event does to the lock
Outcome(s, e) ==
  LET p == e.p  cmd == P(s)[p].cmd
  IN IF e.k = "kill" THEN [holder |-> holder, ph |-> [ph EXCEPT ![p] = "killed"]]
     ELSE IF ~e.b0 /\ e.b1 THEN (IF cmd = "LOCK" THEN [holder |-> Manual, ph |-> [ph EXCEPT ![p] = "ended"]]
                                ELSE [holder |-> p, ph |-> [ph EXCEPT ![p] = "working"]])
     ELSE IF e.b0 /\ ~e.b1 THEN [holder |-> Free, ph |-> [ph EXCEPT ![p] = IF cmd = "UNLOCK" THEN "ended" ELSE "finished"]]
     ELSE IF e.k = "exit" THEN [holder |-> holder, ph |-> [ph EXCEPT ![p] = IF @ = "waiting" THEN "gaveup" ELSE "ended"]]
     ELSE [holder |-> holder, ph |-> ph]
\* evaluated after the new values are known
Facets(s, e) ==
  LET p == e.p  m == P(s)[p]
  IN (IF [LNext]_lockvars /\ e.b0 = (holder # Free) THEN {} ELSE {"l.excl"})
     \cup (IF e.k = "work" /\ ~Work(p) THEN {"l.work"} ELSE {})
     \cup (IF e.k = "late" THEN {"l.late"} ELSE {})
     \cup (IF e.k = "stuck" THEN {"l.progress"} ELSE {})
     \cup (IF e.k # "exit" THEN {}
           ELSE (IF holder' = p \/ e.b1 # (holder' # Free) THEN {"l.released"} ELSE {})
                \cup (IF ph'[p] = "gaveup" /\ m.sure THEN {"l.progress"} ELSE {})
                \cup (IF ph'[p] = "gaveup" /\ m.cmd \in {"RUN", "LOCK"} /\ e.rc = 0 THEN {"l.status"} ELSE {})
                \cup (IF m.intr /\ (ph'[p] # "gaveup" \/ e.rc = 0) THEN {"l.giveup"} ELSE {}))

Init == sc \in 1..Len(Scenarios) /\ k = 0 /\ LInit /\ fail = {}
Steps == S.ev
Next == /\ fail = {} /\ k < Len(Steps)
        /\ k' = k + 1 /\ sc' = sc
        /\ holder' = Outcome(S, Steps[k']).holder
        /\ ph' = Outcome(S, Steps[k']).ph
        /\ fail' = Facets(S, Steps[k'])
        /\ IF fail' = {} THEN TRUE ELSE PrintT("DIFF|" \o N(S.id) \o "|" \o N(k') \o "|" \o JoinSep(SetToSeq(fail'), ","))
vars == <<sc, k, holder, ph, fail>>
Spec == Init /\ [][Next]_vars
OwnedSet == {Owned[i] : i \in 1..Len(Owned)}
Conforms == fail \cap OwnedSet = {}
Exclusive == fail # {} \/ (OneAtATime /\ HolderWorks)
Short == [scenario |-> S.id, step |-> k, fail |-> fail]
=============================================================================
