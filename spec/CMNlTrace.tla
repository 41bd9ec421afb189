----------------------------- MODULE CMNlTrace -----------------------------
(* Conformance of the nodelist tools: lists are indexed by the real program, *)
(* then addresses are looked up; the answers are those of CMNodelist.        *)
EXTENDS CMNodelist

Data == JsonDeserialize(IOEnv.CM_DATA)
Owned == JsonDeserialize(IOEnv.CM_OWNED)
Scenarios == Data.scenarios

VARIABLES sc, k, st, fail

Step(s, e) == IF e.op = "index" THEN [s EXCEPT !.entries = NlEntries(NlConfigured(e.prefs, e.files))] ELSE s
Answer(s, a) ==
  LET i == NlLookup(s.entries, a) e == s.entries[i]
  IN IF i = 0 THEN [found |-> FALSE, at |-> "", info |-> "Node not found" \o LF]
     ELSE [found |-> TRUE, at |-> "Node " \o PrintFull(a) \o LF \o "Region " \o N(e.region) \o ", Hub " \o N(e.hub) \o LF, info |-> NlShow(e)]
Facets(s, e) ==
  IF e.op = "index" THEN (IF e.obs.exit = 0 THEN {} ELSE {"exit"})
  ELSE UNION {LET x == Answer(s, e.addrs[i])  o == e.obs.answers[i]
              IN (IF o.found = x.found THEN {} ELSE {"nl.found"})
                 \cup (IF ~x.found \/ ~o.found \/ o.at = x.at THEN {} ELSE {"nl.where"})
                 \cup (IF x.found # o.found \/ o.info = x.info THEN {} ELSE {"nl.line"})
              : i \in 1..Len(e.addrs)}

Init == sc \in 1..Len(Scenarios) /\ k = 0 /\ st = [entries |-> << >>] /\ fail = {}
Steps == Scenarios[sc].steps
Next == /\ fail = {} /\ k < Len(Steps)
        /\ k' = k + 1 /\ sc' = sc
        /\ st' = Step(st, Steps[k'])
        /\ fail' = Facets(st', Steps[k'])
        /\ IF fail' = {} THEN TRUE ELSE PrintT("DIFF|" \o N(Scenarios[sc].id) \o "|" \o N(k') \o "|" \o JoinSep(SetToSeq(fail'), ","))
vars == <<sc, k, st, fail>>
Spec == Init /\ [][Next]_vars
OwnedSet == {Owned[i] : i \in 1..Len(Owned)}
Conforms == fail \cap OwnedSet = {}
Short == [scenario |-> Scenarios[sc].id, step |-> k, fail |-> fail]
=============================================================================
