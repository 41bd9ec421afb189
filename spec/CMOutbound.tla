---------------------------- MODULE CMOutbound -----------------------------
(* The end of a run: packets and files become outbound content in the       *)
(* BinkleyTerm style, what belongs to a busy system waits, statistics are    *)
(* accumulated.                                                              *)
(*   st.out    packets made by this run      st.files  file entries queued   *)
(*   st.ob     packets in the outbound       st.of     file entries there    *)
(*   st.wait   packets waiting for a busy system, st.waitf the same of files *)
(*   st.arc    per node: the last bundle name and the bundles still there    *)
(*   st.stats  statistics: day, per area                                     *)
EXTENDS CMTosser

Busy(e, a) == \E i \in 1..Len(e.busy) : e.busy[i] = a

\* the outbound directory of a system
DirOf(st, a) ==
  LET ri == FindRoute(st, a)
      f == st.cfg.akas[1]
      d == IF ri = 0 THEN "" ELSE st.cfg.akas[st.cfg.routes[ri].aka].domain
  IN IF ri # 0 /\ d # "" /\ f.domain # "" /\ ~EqI(d, f.domain) THEN d
     ELSE IF a[1] # f.a[1] THEN "out." \o Hex3(a[1])
     ELSE "out"

\* an entry of a flow list: an entry already there is not repeated
FlowAdd(of, x) == IF \E i \in 1..Len(of) : LET f == of[i] IN f.dest = x.dest /\ f.pri = x.pri /\ EqI(f.name, x.name) THEN of
                  ELSE Append(of, x)

(* ------------------------------ statistics ------------------------------ *)
RECURSIVE ShiftDays(_, _)
ShiftDays(d, n) == IF n <= 0 THEN d ELSE ShiftDays(<<0>> \o SubSeq(d, 1, 7), n - 1)
EndStats(st, today) ==
  LET sh == IF st.stats.day = 0 THEN 0 ELSE IF today - st.stats.day > 8 THEN 8 ELSE today - st.stats.day
      upd(i) == LET a == st.stats.areas[i]
                    d == ShiftDays(a.days, sh)
                IN [total |-> a.total + st.an[i], days |-> [d EXCEPT ![1] = @ + st.an[i]], dupes |-> a.dupes + st.ad[i],
                    first |-> IF a.first = 0 /\ st.an[i] # 0 THEN today ELSE a.first,
                    last |-> IF st.an[i] # 0 THEN today ELSE a.last]
      n == Len(st.cfg.areas)
      fst(i) == LET x == st.ns[i] IN IF st.stats.nfirst[i] = 0 /\ x.gotn + x.gote + x.sentn + x.sente # 0 THEN today ELSE st.stats.nfirst[i]
  IN [st EXCEPT !.stats = [day |-> today, areas |-> [i \in 1..n |-> upd(i)], nfirst |-> [i \in 1..Len(st.cfg.nodes) |-> fst(i)]]]
Counted(a) == a.type \in {"BAD", "ECHOMAIL", "NETMAIL"} /\ ~a.f.UNCONFIRMED
\* what the statistics file says; areas not counted are forgotten
StatAreas(st) == LET idx == SelectSeq([i \in 1..Len(st.cfg.areas) |-> i], LAMBDA i : Counted(st.cfg.areas[i])) IN
  [k \in 1..Len(idx) |-> LET i == idx[k] a == st.cfg.areas[i] s == st.stats.areas[i] IN
     [tag |-> a.tag, aka |-> st.cfg.akas[a.aka].a, group |-> a.group, total |-> s.total, days |-> s.days, dupes |-> s.dupes, first |-> s.first, last |-> s.last]]
StatNodes(st) == [i \in 1..Len(st.cfg.nodes) |-> LET x == st.ns[i] IN
     [a |-> st.cfg.nodes[i].a, gotn |-> x.gotn, gotnb |-> x.gotnb, sentn |-> x.sentn, sentnb |-> x.sentnb, gote |-> x.gote, goteb |-> x.goteb,
      sente |-> x.sente, senteb |-> x.senteb, dupes |-> x.dupes, first |-> st.stats.nfirst[i]]]

(* ------------------------------- bundles -------------------------------- *)
DayNames == <<"su", "mo", "tu", "we", "th", "fr", "sa">>
SufName(n) == DayNames[(n \div 10) + 1] \o N(n % 10)
\* oa: the bundles observed for this node, [name, cum]: cum[k] the size of the bundle with k packets.
\* Sizes cannot be predicted and are taken from there, as is the base name of the very first bundle.
\* a: [base, suf, list of [name, n] still on disk]
OaOf(oa, name) == First(oa, LAMBDA x : x.name = name)
ArcPut(a, e, cfg, oa) ==
  LET name == a.base \o "." \o SufName(a.suf)
      b == First(a.list, LAMBDA x : x.name = name)
      size == IF b = 0 THEN 0 ELSE LET j == OaOf(oa, name) IN IF j = 0 \/ a.list[b].n > Len(oa[j].cum) THEN 0 ELSE oa[j].cum[a.list[b].n]
      max == cfg.maxbundle * 1024
      new == b = 0 \/ size = 0 \/ size > max \/ (cfg.f.WEEKDAYNAMING /\ a.suf \div 10 # e.wday)
      s1 == (a.suf + 1) % 70
      s2 == IF cfg.f.WEEKDAYNAMING /\ s1 \div 10 # e.wday THEN e.wday * 10 ELSE s1
      s3 == IF \E i \in 1..Len(a.list) : a.list[i].name = a.base \o "." \o SufName(s2) THEN a.suf ELSE s2
      suf == IF a.base = "" THEN (IF cfg.f.WEEKDAYNAMING THEN e.wday * 10 ELSE 0) ELSE IF new THEN s3 ELSE a.suf
      base == IF a.base # "" THEN a.base ELSE IF oa = << >> THEN "?" ELSE Take(oa[1].name, 8)
      nm == base \o "." \o SufName(suf)
      k == First(a.list, LAMBDA x : x.name = nm)
  IN [base |-> base, suf |-> suf, list |-> IF k = 0 THEN Append(a.list, [name |-> nm, n |-> 1]) ELSE [a.list EXCEPT ![k].n = @ + 1]]

RECURSIVE ArcPuts(_, _, _, _, _)
ArcPuts(a, n, e, cfg, oa) == IF n = 0 THEN a ELSE ArcPuts(ArcPut(a, e, cfg, oa), n - 1, e, cfg, oa)

(* ------------------------------ end of a run ---------------------------- *)
\* an area removed and added again in one run is found where it was
Reorder(st) ==
  LET n == Len(st.cfg.areas)
      old == SelectSeq([k \in 1..Len(st.order) |-> FindArea(st.cfg, st.order[k])], LAMBDA i : i # 0)
      new == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~SeqHas(old, i))
      p == old \o new
      f(s) == [i \in 1..n |-> s[p[i]]]
  IN IF \A i \in 1..n : p[i] = i THEN st
     ELSE [st EXCEPT !.cfg.areas = f(@), !.bases = f(@), !.an = f(@), !.ad = f(@), !.stats.areas = f(@)]
EndRun(st0, e) ==
  LET st == Reorder(st0)
      all == st.wait \o st.out
      ready == SelectSeq(all, LAMBDA p : ~Busy(e, p.dest))
      files == st.waitf \o st.files
      oa(i) == SelectSeq(e.obs.arcs, LAMBDA x : x.dest = st.cfg.nodes[i].a)
      arc(i) == IF st.cfg.nodes[i].packer = "" THEN st.arc[i]
                ELSE ArcPuts(st.arc[i], Len(SelectSeq(ready, LAMBDA p : p.type = "ECHOMAIL" /\ p.dest = st.cfg.nodes[i].a)), e, st.cfg, oa(i))
      s1 == [st EXCEPT !.ob = @ \o ready, !.wait = SelectSeq(all, LAMBDA p : Busy(e, p.dest)),
                       !.of = FoldLeft(FlowAdd, @, SelectSeq(files, LAMBDA f : ~Busy(e, f.dest))),
                       !.waitf = SelectSeq(files, LAMBDA f : Busy(e, f.dest)),
                       !.arc = [i \in 1..Len(st.cfg.nodes) |-> arc(i)],
                       !.bases = [i \in 1..Len(@) |-> IF st.cfg.areas[i].base = "JAM" /\ st.cfg.f.JAM_LINK
                                                      THEN [@[i] EXCEPT !.msgs = JamLink(@, st.bases[i].old, st.cfg.f.JAM_QUICKLINK)] ELSE @[i]]]
  IN EndStats(s1, e.today)

\* between runs the mailer sends (and deletes or truncates) what is in the outbound
Drain(st) == [st EXCEPT !.ob = << >>, !.of = << >>, !.arc = [i \in 1..Len(@) |-> [@[i] EXCEPT !.list = << >>]]]
=============================================================================
