---------------------------- MODULE CMFaultTrace ----------------------------
(* A run that is killed, or in which a file operation fails, and the clean   *)
(* run after it.  Whatever happened, the two together have the effect of     *)
(* one undisturbed run, up to repetition: nothing is missing, nothing is     *)
(* there that would not be there otherwise, and nothing is in parts.         *)
(*                                                                           *)
(* The steps before are as in CMTrace.  Each fault of the last step is one   *)
(* successor; fail names what is wrong.                                      *)
EXTENDS CMTrace

VARIABLE j

Set(s) == {s[i] : i \in 1..Len(s)}
Netmail(p) == p.type # "ECHOMAIL"
Msgs(ps, F(_)) == UNION {{<<ps[i].dest, ps[i].type, IF Netmail(ps[i]) THEN Null4 ELSE ps[i].orig, F(ps[i].msgs[n])>> : n \in 1..Len(ps[i].msgs)} : i \in 1..Len(ps)}
All(m) == [o2 |-> m.o2, d2 |-> m.d2, attr |-> m.attr, cost |-> m.cost, date |-> m.date, to |-> m.to, from |-> m.from,
           subj |-> m.subj, area |-> m.area, body |-> m.body, sbl |-> m.sbl, pathl |-> m.pathl]
OMsgs(o) == Msgs(o.out, LAMBDA m : All(Full(m)))
EMsgs(s) == Msgs(s.ob, All)

\* contents of message bases, without numbers and links
Plain(m, bad) == [from |-> m.from, to |-> m.to, subj |-> m.subj, date |-> m.date, attr |-> m.attr, cost |-> m.cost, orig |-> m.orig, dest |-> m.dest,
                  body |-> m.body, sbl |-> IF bad THEN SBSet(m.sbl) ELSE m.sbl, pathl |-> m.pathl]
PlainJ(m, bad) == [from |-> m.from, to |-> m.to, subj |-> m.subj, date |-> m.date, attr |-> m.attr, cost |-> m.cost, oaddr |-> m.oaddr, daddr |-> m.daddr,
                   fl |-> Set(SelectSeq(m.fl, LAMBDA x : ~bad \/ x.id # 2001)),
                   sb |-> IF bad THEN SBSet(Map(LAMBDA x : "SEEN-BY: " \o x.d, SelectSeq(m.fl, LAMBDA x : x.id = 2001))) ELSE {}, text |-> m.text]
EBase(s, i) == LET a == s.cfg.areas[i] ms == s.bases[i].msgs bad == a.type = "BAD" IN
  IF a.base = "JAM" THEN Set(Map(LAMBDA m : PlainJ(m, bad), SelectSeq(ms, LAMBDA m : ~m.del))) ELSE Set(Map(LAMBDA m : Plain(m, bad), ms))
OBase(o, a) == LET x == First(o.bases, LAMBDA b : EqI(b.tag, a.tag)) bad == a.type = "BAD" IN
  IF x = 0 THEN {} ELSE
  IF a.base = "JAM" THEN Set(Map(LAMBDA m : PlainJ(m, bad), SelectSeq(o.bases[x].msgs, LAMBDA m : ~m.del)))
  ELSE Set(Map(LAMBDA m : Plain(BFull(m, m.echo), bad), o.bases[x].msgs))
Stored(a) == a.base # "" /\ a.type # "DEFAULT"

\* which file for whom; a file that cannot be copied is queued where it is
FKey(x) == [dest |-> x.dest, pri |-> x.pri, id |-> x.id]
FlowFiles(o) == Set(Map(FKey, SelectSeq(o.flow, LAMBDA x : x.kind = "FILE")))
\* an entry that names a packet or a bundle names one that is there and complete
Queued(o) == \A i \in 1..Len(o.flow) : LET x == o.flow[i] IN
               (x.kind # "FILE" => x.exists) /\ (x.kind = "FILE" /\ Starts(x.name, "pk/") /\ Ends(Low(x.name), ".pkt") => x.exists)

Aux == UNION {IF Steps[i].op = "toss" THEN {Steps[i].aux[n].id : n \in 1..Len(Steps[i].aux)} ELSE {} : i \in 1..Len(Steps)}
FaultFacets(pre, s, f) ==
  LET o0 == f.o0   o1 == f.o1
      want == EMsgs(s)   had == EMsgs(pre)
      m0 == OMsgs(o0)    m1 == OMsgs(o1)
      got == IF f.drain THEN m0 \cup m1 ELSE m1
      whole(o) == \A i \in 1..Len(o.out) : o.out[i].wf
      areas == {i \in 1..Len(s.cfg.areas) : Stored(s.cfg.areas[i])}
      old(i) == IF i <= Len(pre.bases) THEN EBase(pre, i) ELSE {}
      goodbase(o) == \A i \in 1..Len(o.bases) : o.bases[i].whole
      cfgs == {<<pre.cfg.areas, pre.cfg.nodes>>, <<s.cfg.areas, s.cfg.nodes>>}
      d0 == Set(o0.dupes)  d1 == Set(o1.dupes)
      files == FlowFiles(o1) \cup (IF f.drain THEN FlowFiles(o0) ELSE {})
  IN (IF want \subseteq got THEN {} ELSE {"lost"})
     \cup (IF m0 \cup m1 \subseteq want \cup had THEN {} ELSE {"made"})
     \cup (IF whole(o0) /\ whole(o1) /\ goodbase(o0) /\ goodbase(o1) THEN {} ELSE {"half"})
     \cup (IF Queued(o0) /\ (f.drain \/ Queued(o1)) THEN {} ELSE {"queue"})
     \cup (IF \A i \in areas : LET a == s.cfg.areas[i] ob == OBase(o1, a) IN 
                              IF a.type = "BAD" THEN EBase(s, i) \subseteq ob
                              \* a message that could not be marked as sent, or deleted, stays as it was written
                              ELSE ob = EBase(s, i) \/ (f.mode = "fail" /\ ob \subseteq EBase(s, i) \cup old(i)
                                   /\ \A w \in EBase(s, i) \ ob : \E p \in ob \cap old(i) : <<p.from, p.to, p.subj, p.date>> = <<w.from, w.to, w.subj, w.date>>) THEN {} ELSE {"base"})
     \cup (IF \A i \in areas : LET a == s.cfg.areas[i] IN a.type = "BAD" \/ OBase(o0, a) \subseteq EBase(s, i) \cup old(i) THEN {} ELSE {"basepart"})
     \cup (IF <<o0.cfg.areas, o0.cfg.nodes>> \in cfgs /\ o1.cfg.areas = s.cfg.areas /\ o1.cfg.nodes = s.cfg.nodes THEN {} ELSE {"cfg"})
     \cup (IF d0 \cup d1 \subseteq Set(pre.dupes) \cup Set(s.dupes) /\ (Len(s.dupes) < s.cfg.dupesize => Set(pre.dupes) \subseteq d0 \cap d1) THEN {} ELSE {"dupe"})
     \cup (IF Set(s.inb) = Set(o1.inb)
              \* an attached file that could not be moved to the outbound stays where it is
              \/ (f.mode = "fail" /\ Set(s.inb) \subseteq Set(o1.inb) /\ {x.id : x \in Set(o1.inb) \ Set(s.inb)} \subseteq Aux) THEN {} ELSE {"inb"})
     \cup (IF Set(Map(FKey, SelectSeq(s.of, LAMBDA x : x.id # ""))) \subseteq files THEN {} ELSE {"files"})
     \* a run that comes to its end holds nothing any more
     \cup (IF f.mode = "kill" \/ Len(f.locks) = 0 THEN {} ELSE {"lock"})
     \cup (IF o1.exit = 0 THEN {} ELSE {"exit"})

FInit == Init /\ j = 0
Walk == /\ k < Len(Steps) - 1
        /\ k' = k + 1
        /\ st' = Apply(st, Steps[k'])
        /\ UNCHANGED <<sc, fail, j>>
Fault == /\ k = Len(Steps) - 1
         /\ j < Len(Scenarios[sc].faults)
         /\ UNCHANGED <<sc, k>>
         /\ j' = j + 1
         \* the undisturbed run is computed once
         /\ LET e == Steps[k + 1]
                pre == IF j = 0 THEN Edits(IF e.drained THEN Drain(st) ELSE st, e) ELSE st.pre
                want == IF j = 0 THEN Apply(st, e) ELSE st.want
            IN /\ st' = [pre |-> pre, want |-> want]
               /\ fail' = FaultFacets(pre, want, Scenarios[sc].faults[j'])
         /\ IF fail' = {} THEN TRUE
            ELSE PrintT("DIFF|" \o N(Scenarios[sc].id) \o "|" \o N(j') \o "|" \o JoinSep(SetToSeq(fail'), ","))
         /\ (Debug => JsonSerialize(IOEnv.CM_DEBUG \o "/" \o N(Scenarios[sc].id) \o ".json", st'.want))
FNext == Walk \/ Fault
FVars == <<sc, k, st, fail, j>>
FSpec == FInit /\ [][FNext]_FVars
=============================================================================
