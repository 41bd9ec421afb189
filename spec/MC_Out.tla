------------------------------- MODULE MC_Out -------------------------------
(* The outbound in a few lines: what is made for a system is queued for it   *)
(* or, while a mailer talks to it, waits; the mailer sends what is queued.   *)
(* Every history up to a depth is explored; at all times what was sent, what *)
(* is queued and what waits is, in this order, everything made for a system, *)
(* and the statistics are counts of the mail handled in the days before.     *)
(* The histories are replayed with the real program (cm/outq.py).            *)
EXTENDS CMTrace

CONSTANT Depth
VARIABLES hist, ab, gone

World == Scenarios[sc]
Pool == World.steps
Cfg0 == World.cfg
Nodes == 1..2
Tags == {"NETMAIL", "ONE", "TWO"}
Pos == Len(hist) + 1

(* ------------------------------ the small view --------------------------- *)
\* made: everything made for a system; files: attached files, only for system 1; log: what was handled, when; now: the day; last: the last new echomail
Ab0 == [made |-> [n \in Nodes |-> << >>], files |-> << >>, log |-> << >>, now |-> Pool[1].today, last |-> 0, seen |-> {}, busy |-> {}]
Log(b, t, dup) == [b EXCEPT !.log = Append(@, [tag |-> t, day |-> b.now, dup |-> dup])]
\* TWO has no link to system 1
ToNode(b, n, s) == [b EXCEPT !.made[n] = Append(@, s)]
AbStep(b, m) ==
  LET b0 == [b EXCEPT !.now = @ + m.days, !.busy = {m.busy[i] : i \in 1..Len(m.busy)}]
      s == "m" \o N(Pos)
      id == IF m.mail = "dupe" THEN b.last ELSE Pos
      One == ToNode(ToNode(Log([b0 EXCEPT !.last = id, !.seen = @ \cup {id}], "ONE", FALSE), 1, s), 2, s)
  IN CASE m.mail = "" -> b0
       [] m.mail = "echo" -> One
       [] m.mail = "two" -> ToNode(Log(One, "TWO", FALSE), 2, s)
       [] m.mail = "dupe" -> IF id \notin b.seen THEN One ELSE Log(b0, "ONE", TRUE)
       [] m.mail = "net" -> ToNode(b0, 2, s)
       [] m.mail = "file" -> [ToNode(b0, 1, "a") EXCEPT !.files = Append(@, "pk/a" \o N(Pos) \o ".txt")]

(* -------------------- what the full specification says ------------------- *)
\* event i as it is now
Now(i) ==
  LET e == Pool[i]
      e0 == [e EXCEPT !.today = ab.now + e.meta.days, !.wday = (ab.now + e.meta.days + 4) % 7]
      id == IF e.meta.mail = "dupe" THEN ab.last ELSE Pos
      name == "a" \o N(Pos) \o ".txt"
      e1 == [e0 EXCEPT !.files[1].id = "f" \o N(Pos)]
      ms == e.files[1].pkt.msgs
  IN IF e.meta.mail = "" THEN e0
     ELSE IF e.meta.mail = "net" THEN [e1 EXCEPT !.files[1].pkt.msgs[1].subj = "m" \o N(Pos)]
     ELSE IF e.meta.mail = "file" THEN [e1 EXCEPT !.files[1].pkt.msgs[1].subj = name, !.aux[1].name = name]
     ELSE [e1 EXCEPT !.files[1].pkt.msgs = [j \in 1..Len(ms) |-> [ms[j] EXCEPT !.subj = "m" \o N(Pos), !.lines[2] = SOH \o "MSGID: x " \o N(id) \o CR]]]
Addr(n) == Cfg0.nodes[n].a
Of(ps, n) == Map(LAMBDA m : IF m.area = "" /\ n = 1 THEN "a" ELSE m.subj, FlattenSeq(Map(LAMBDA p : p.msgs, SelectSeq(ps, LAMBDA p : p.dest = Addr(n)))))
Names(fs, n) == Map(LAMBDA f : f.name, SelectSeq(fs, LAMBDA f : f.dest = Addr(n)))
\* gone: what the mailer has sent
Gone0 == [n \in Nodes |-> [mail |-> << >>, files |-> << >>]]
MInit == Init /\ hist = << >> /\ ab = Ab0 /\ gone = Gone0
MNext == /\ Len(hist) < Depth
         /\ \E i \in 1..Len(Pool) : /\ hist' = Append(hist, i)
                                    /\ gone' = IF Pool[i].drained THEN [n \in Nodes |-> [mail |-> gone[n].mail \o Of(st.ob, n), files |-> gone[n].files \o Names(st.of, n)]] ELSE gone
                                    /\ st' = Apply(st, Now(i))
                                    /\ ab' = AbStep(ab, Pool[i].meta)
         /\ UNCHANGED <<sc, k, fail>>
MSpec == MInit /\ [][MNext]_<<vars, hist, ab, gone>>

\* C12, C25: nothing is lost, repeated or overtaken on its way to a system
Conserved == \A n \in Nodes : gone[n].mail \o Of(st.ob, n) \o Of(st.wait, n) = ab.made[n]
Files == gone[1].files \o Names(st.of, 1) \o Names(st.waitf, 1) = ab.files
\* only what belongs to a busy system waits
Waiting == \A n \in Nodes : n \notin ab.busy => Of(st.wait, n) = << >> /\ Names(st.waitf, n) = << >>
\* no bundle's name is used twice while the first is there; nothing is bundled for systems without a packer
Bundles == \A n \in Nodes : LET a == st.arc[n] IN
  /\ Cardinality({a.list[i].name : i \in 1..Len(a.list)}) = Len(a.list)
  /\ Cfg0.nodes[n].packer = "" => a.list = << >>
\* C22: the counts of today and the seven days before, the totals and the days of the first and the last message
Entries(t, dup) == {i \in 1..Len(ab.log) : ab.log[i].tag = t /\ ab.log[i].dup = dup}
Days(t) == {ab.log[i].day : i \in Entries(t, FALSE)}
Counts == Len(hist) > 0 => \A t \in Tags \ {"NETMAIL"} :
  LET s == st.stats.areas[FindArea(Cfg0, t)] IN
  /\ s.total = Cardinality(Entries(t, FALSE)) /\ s.dupes = Cardinality(Entries(t, TRUE))
  /\ \A d \in 1..8 : s.days[d] = Cardinality({i \in Entries(t, FALSE) : ab.log[i].day = ab.now - d + 1})
  /\ s.first = (IF Days(t) = {} THEN 0 ELSE CHOOSE d \in Days(t) : \A x \in Days(t) : d <= x)
  /\ s.last = (IF Days(t) = {} THEN 0 ELSE CHOOSE d \in Days(t) : \A x \in Days(t) : d >= x)
=============================================================================
