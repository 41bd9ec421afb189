------------------------------ MODULE MC_Site ------------------------------
(* What the site is for, in a few lines: which systems are linked to which  *)
(* areas, what has been seen, what is stored where and who was sent what.   *)
(* Every history of events from the pool of a small world is explored, and  *)
(* the full specification (CMTrace!Apply and everything below it: packets,  *)
(* strings, SEEN-BY lines, configuration, AreaFix, bases, outbound) has to  *)
(* agree with this view of it after every step.  The same histories are     *)
(* replayed with the real program (cm/site.py) and validated by CMTrace.    *)
EXTENDS CMTrace

CONSTANT Depth
VARIABLES hist, ab

World == Scenarios[sc]
Pool == World.steps
Cfg0 == World.cfg
Nodes == 1..Len(Cfg0.nodes)
Tags == {Cfg0.areas[i].tag : i \in {i \in 1..Len(Cfg0.areas) : Cfg0.areas[i].type = "ECHOMAIL"}}
Area0(t) == Cfg0.areas[FindArea(Cfg0, t)]
LinkOf(t, n) == SelectSeq(Area0(t).nodes, LAMBDA l : l.i = n)
Is(t, n, f) == LET l == LinkOf(t, n) IN l # << >> /\ l[1][f]
A2(n) == <<Cfg0.nodes[n].a[2], Cfg0.nodes[n].a[3]>>
\* systems of our zone that are no points are named in SEEN-BYs
Listed(n) == Cfg0.nodes[n].a[1] = Cfg0.akas[1].a[1] /\ Cfg0.nodes[n].a[4] = 0
Own2 == <<Cfg0.akas[1].a[2], Cfg0.akas[1].a[3]>>

(* ------------------------------ the small view --------------------------- *)
Ab0 == [link |-> [t \in Tags |-> {n \in Nodes : LinkOf(t, n) # << >>}], seen |-> << >>, area |-> [t \in Tags |-> << >>], bad |-> << >>, net |-> << >>,
        echo |-> [n \in Nodes |-> << >>], mail |-> [n \in Nodes |-> 0], refused |-> 0]
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
\* who gets message m of area t from system f
Gets(b, t, m, n) == /\ n \in b.link[t] /\ n # m.node /\ ~Cfg0.nodes[n].f.PASSIVE /\ ~Is(t, n, "wo")
                    /\ ~(Cfg0.f.CHECKSEENBY /\ ~Area0(t).f.IGNORESEENBY /\ Listed(n) /\ m.zone = Cfg0.akas[1].a[1] /\ \E i \in 1..Len(m.sb) : m.sb[i] = A2(n))
Echo(b, m) ==
  LET t == m.area
      ok == m.node # 0 /\ t \in Tags
      may == ok /\ m.node \in b.link[IF ok THEN t ELSE CHOOSE x \in Tags : TRUE] /\ ~Is(IF ok THEN t ELSE CHOOSE x \in Tags : TRUE, m.node, "ro")
      key == <<m.area, m.id>>
      dup == Cfg0.dupemode # "IGNORE" /\ \E i \in 1..Len(b.seen) : b.seen[i] = key
      b1 == IF Cfg0.dupemode = "IGNORE" THEN b ELSE [b EXCEPT !.seen = LastN(Append(@, key), Cfg0.dupesize)]
  IN IF ~may THEN [b EXCEPT !.bad = Append(@, m.subj)]
     ELSE IF dup THEN (IF Cfg0.dupemode = "BAD" THEN [b EXCEPT !.bad = Append(@, m.subj)] ELSE b)
     ELSE [b1 EXCEPT !.area[t] = Append(@, m.subj), !.echo = [n \in Nodes |-> IF Gets(b, t, m, n) THEN Append(@[n], m.subj) ELSE @[n]]]
\* a request by a known system with the right password links or unlinks; every request is answered
Request(b, m) ==
  LET t == m.area
      b1 == [b EXCEPT !.mail[m.node] = @ + 1]
  IN IF ~m.right THEN b1
     ELSE IF m.on THEN [b1 EXCEPT !.link[t] = @ \cup {m.node}] ELSE [b1 EXCEPT !.link[t] = @ \ {m.node}]
AbStep(b, m) ==
  CASE ~m.pwok -> [b EXCEPT !.refused = @ + 1]
    [] m.pwok /\ m.kind = "echo" -> Echo(b, m)
    [] m.pwok /\ m.kind = "af" -> Request(b, m)
    [] m.pwok /\ m.kind = "here" -> [b EXCEPT !.net = Append(@, m.subj)]
    [] m.pwok /\ m.kind = "via" -> [b EXCEPT !.mail[m.to] = @ + 1]

(* -------------------- what the full specification says ------------------- *)
Base(tag) == st.bases[FindArea(st.cfg, tag)].msgs
Subjs(ms) == Map(LAMBDA m : m.subj, ms)
To(n) == SelectSeq(st.ob, LAMBDA p : p.dest = Cfg0.nodes[n].a)
EchoTo(n) == SelectSeq(FlattenSeq(Map(LAMBDA p : p.msgs, To(n))), LAMBDA m : m.area # "")
MailTo(n) == SelectSeq(FlattenSeq(Map(LAMBDA p : p.msgs, To(n))), LAMBDA m : m.area = "")

MInit == Init /\ hist = << >> /\ ab = Ab0
MNext == /\ Len(hist) < Depth
         /\ \E i \in 1..Len(Pool) : /\ hist' = Append(hist, i)
                                    /\ st' = Apply(st, Pool[i])
                                    /\ ab' = AbStep(ab, Pool[i].meta)
         /\ UNCHANGED <<sc, k, fail>>
MSpec == MInit /\ [][MNext]_<<vars, hist, ab>>

\* C01: nothing is lost: what is refused stays, everything else is stored, queued or recorded as seen before
Stored == /\ \A t \in Tags : Subjs(Base(t)) = ab.area[t]
          /\ Subjs(Base("BAD")) = ab.bad
          /\ Subjs(Base("NETMAIL")) = ab.net
Kept == Len(st.inb) = ab.refused
\* C02, C04, C05: exactly the right systems get it, once and in order
Queued == \A n \in Nodes : Subjs(EchoTo(n)) = ab.echo[n]
Mailed == \A n \in Nodes : Len(MailTo(n)) = ab.mail[n]
\* no message goes to anybody else
Nowhere == \A i \in 1..Len(st.ob) : \E n \in Nodes : st.ob[i].dest = Cfg0.nodes[n].a
Remembered == Len(st.dupes) = Len(ab.seen)
\* C10, C23: who is linked
Links == \A t \in Tags : LET a == st.cfg.areas[FindArea(st.cfg, t)] IN {a.nodes[i].i : i \in 1..Len(a.nodes)} = ab.link[t] /\ Len(a.nodes) = Cardinality(ab.link[t])
\* C03: whoever is sent a message in our zone is named, as are we; the sender's list is kept; we are last in the path
Named == \A n \in Nodes : \A i \in 1..Len(EchoTo(n)) :
           LET m == EchoTo(n)[i]
               sb == SBSet(m.sbl)
               from == {j \in 1..Len(Pool) : Pool[j].meta.kind = "echo" /\ Pool[j].meta.subj = m.subj}
               p == m.pathl[Len(m.pathl)]
           IN /\ Own2 \in sb
              /\ Listed(n) => A2(n) \in sb
              /\ Listed(n) => \A j \in from : Pool[j].meta.zone = Cfg0.akas[1].a[1] => \A x \in 1..Len(Pool[j].meta.sb) : Pool[j].meta.sb[x] \in sb
              /\ Ends(p, " " \o N(Own2[1]) \o "/" \o N(Own2[2]) \o CR) \/ Ends(p, " " \o N(Own2[2]) \o CR)
\* C25: the password of each packet is the one agreed with the system it is for
Agreed == \A i \in 1..Len(st.ob) : \A n \in Nodes : st.ob[i].dest = Cfg0.nodes[n].a => st.ob[i].pw = Cfg0.nodes[n].pw
=============================================================================
