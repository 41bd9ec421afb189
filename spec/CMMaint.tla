------------------------------ MODULE CMMaint ------------------------------
(* Maintenance of the message bases: messages beyond the limits of an area   *)
(* are deleted, oldest first, and what is deleted is packed away.            *)
(* e.maint, e.pack: what was asked for; e.pat: pattern for tags ("": all);   *)
(* e.pre: per area with a message base [tag, msgs, lr]: what the specification  *)
(* does not keep of the messages before the run, [num, day, raw]: the day it *)
(* was stored and data that must survive as it is, and the last-read file.   *)
EXTENDS CMScan

Selected(a, e) == a.base # "" /\ a.type # "DEFAULT" /\ (e.pat = "" \/ TagMatch(e.pat, a.tag))

DayOf(p, num) == p.msgs[First(p.msgs, LAMBDA x : x.num = num)].day
\* numbers of the messages beyond the limits; live: numbers of the messages, in order
Beyond(a, live, p, today) ==
  LET n == IF a.keepnum # 0 /\ Len(live) > a.keepnum THEN Len(live) - a.keepnum ELSE 0
      old(i) == a.keepdays # 0 /\ today - DayOf(p, live[i]) > a.keepdays
  IN {live[i] : i \in {i \in 1..Len(live) : i <= n \/ old(i)}}

MaintMsg(b, gone, pack) ==
  LET left == SelectSeq(b.msgs, LAMBDA m : m.num \notin gone)
      new(n) == IF n = 0 THEN 0 ELSE LET i == First(left, LAMBDA m : m.num = n) IN IF i = 0 THEN 0 ELSE i + 1
      last == LastIdx(left, LAMBDA m : m.num <= b.hw)
      ms == IF pack THEN [i \in 1..Len(left) |-> [left[i] EXCEPT !.num = i + 1, !.rto = new(@), !.nr = new(@)]] ELSE left
  IN IF b.msgs = << >> THEN b ELSE [b EXCEPT !.msgs = ms, !.hw = IF last = 0 THEN 0 ELSE ms[last].num]

MaintJam(b, gone, pack) ==
  LET ms == [i \in 1..Len(b.msgs) |-> IF b.msgs[i].num \in gone THEN [b.msgs[i] EXCEPT !.del = TRUE] ELSE b.msgs[i]]
      f == First(ms, LAMBDA m : ~m.del)
      rest == IF f = 0 THEN << >> ELSE SubSeq(ms, f, Len(ms))
  IN [b EXCEPT !.msgs = IF pack THEN [i \in 1..Len(rest) |-> IF rest[i].del THEN [rest[i] EXCEPT !.rto = 0] ELSE rest[i]] ELSE ms]

PreOf(e, a) == e.pre[First(e.pre, LAMBDA p : EqI(p.tag, a.tag))]
Gone(st, i, e) ==
  LET a == st.cfg.areas[i]
      live == SelectSeq(st.bases[i].msgs, LAMBDA m : a.base # "JAM" \/ ~m.del)
  IN IF ~e.maint \/ ~Selected(a, e) THEN {} ELSE Beyond(a, [j \in 1..Len(live) |-> live[j].num], PreOf(e, a), e.today)
Maint(st, e) ==
  [st EXCEPT !.bases = [i \in 1..Len(@) |->
     IF ~Selected(st.cfg.areas[i], e) \/ ~(e.maint \/ e.pack) THEN @[i]
     ELSE IF st.cfg.areas[i].base = "JAM" THEN MaintJam(@[i], Gone(st, i, e), e.pack) ELSE MaintMsg(@[i], Gone(st, i, e), e.pack)]]

\* what the messages left carried is as it was; post: as e.pre, after the run
Carried(st, e, post) ==
  \A i \in 1..Len(st.cfg.areas) :
    LET a == st.cfg.areas[i]
        p == PreOf(e, a)
        q == post[First(post, LAMBDA x : EqI(x.tag, a.tag))]
        gone == Gone(st, i, e)
    IN a.base # "" /\ a.type # "DEFAULT" =>
       /\ p.lr = q.lr
       /\ LET left == SelectSeq(p.msgs, LAMBDA x : x.num \notin gone)
              got == SelectSeq(q.msgs, LAMBDA x : TRUE)
          IN [j \in 1..Len(left) |-> left[j].raw] = [j \in 1..Len(got) |-> got[j].raw]
=============================================================================
