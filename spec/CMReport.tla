----------------------------- MODULE CMReport ------------------------------
(* The report of the statistics (crashstats): what it shows of the state of  *)
(* the statistics, for every combination of its arguments.                   *)
(*   q   the arguments: sort a/t/m/d/l/u, last7, noareas, nonodes, group     *)
(*   r   what was printed: exit, from, to, areas, total, nodes, heads        *)
EXTENDS CMOutbound

Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Civil(day) == LET z == day + 719468
                  doe == z % 146097
                  yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
                  doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
                  mp == (5 * doy + 2) \div 153
                  m == IF mp < 10 THEN mp + 3 ELSE mp - 9
              IN [d |-> doy - ((153 * mp + 2) \div 5) + 1, m |-> m, y |-> yoe + 400 * (z \div 146097) + (IF m <= 2 THEN 1 ELSE 0)]
Two(n) == IF n < 10 THEN "0" \o N(n) ELSE N(n)
DayStr(day) == LET c == Civil(day) IN Two(c.d) \o "-" \o Months[c.m] \o "-" \o Two(c.y % 100)
DayOrNever(day) == IF day = 0 THEN "<Never>" ELSE DayStr(day)
\* in the table of nodes days and years are not padded
DayNode(day) == IF day = 0 THEN "<Never>" ELSE LET c == Civil(day) IN N(c.d) \o "-" \o Months[c.m] \o "-" \o N(c.y % 100)

RECURSIVE SumDays(_, _, _)
SumDays(d, i, n) == IF i > n THEN 0 ELSE d[i] + SumDays(d, i + 1, n)
\* messages a day: whole days of the last week after the first day, not today; the whole time if there was nothing in that week
PerDay(d8, total, day, first) ==
  IF day = 0 \/ first = 0 THEN 0
  ELSE LET d0 == day - first
           n == IF d0 > 7 THEN 7 ELSE d0
           s == SumDays(d8, 2, n + 1)
           max1(x) == IF x = 0 THEN 1 ELSE x
       IN IF s = 0 /\ total # 0 THEN total \div max1(d0) ELSE s \div max1(n)

Bytes(n) == IF n > 10000000 THEN N(n \div 1048576) \o " MB" ELSE IF n > 10000 THEN N(n \div 1024) \o " KB" ELSE N(n) \o " bytes"

RECURSIVE SumF(_, _)
SumF(f(_), l) == IF l = << >> THEN 0 ELSE f(Head(l)) + SumF(f, Tail(l))
MinPos(S) == IF S \ {0} = {} THEN 0 ELSE CHOOSE x \in S \ {0} : \A y \in S \ {0} : x <= y
CutN(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
IsIn(g, s) == g # "" /\ \E i \in 1..Len(s) : EqI(SubSeq(s, i, i), g)

Less4(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

ReportOk(st, q, r) ==
  LET as == StatAreas(st)
      ns == StatNodes(st)
      day == st.stats.day
      shown == SortSeq(SelectSeq(as, LAMBDA a : q.group = "" \/ IsIn(a.group, q.group)), LAMBDA a, b : LessI(a.tag, b.tag))
      first == MinPos((IF q.noareas THEN {} ELSE {as[i].first : i \in 1..Len(as)}) \cup (IF q.nonodes THEN {} ELSE {ns[i].first : i \in 1..Len(ns)}))
      avg(a) == PerDay(a.days, a.total, day, a.first)
      week(a) == SumDays(a.days, 2, 8)
      row(a) == IF q.last7 THEN [tag |-> CutN(a.tag, 33), days |-> SubSeq(a.days, 2, 8), total |-> week(a)]
                ELSE [tag |-> CutN(a.tag, 30), first |-> DayOrNever(a.first), last |-> DayOrNever(a.last), msgs |-> a.total, avg |-> avg(a), dupes |-> a.dupes]
      rows == Map(row, shown)
      \* sorted by something else: the same rows, that column does not grow
      key(a) == CASE q.sort = "t" -> a.total [] q.sort = "m" -> avg(a) [] q.sort = "d" -> a.first [] q.sort = "l" -> a.last [] q.sort = "u" -> a.dupes
      rowkey(x) == LET c == CHOOSE i \in 1..Len(rows) : rows[i] = x IN key(shown[c])
      clash == Cardinality(ToSet(rows)) # Len(rows)
      ordered == IF q.sort = "a" THEN r.areas = rows
                 ELSE /\ Len(r.areas) = Len(rows) /\ ToSet(r.areas) = ToSet(rows)
                      /\ (clash \/ \A i \in 1..(Len(rows) - 1) : rowkey(r.areas[i]) >= rowkey(r.areas[i + 1]))
      tot8 == [d \in 1..8 |-> SumF(LAMBDA a : a.days[d], shown)]
      total == IF q.last7 THEN [n |-> Len(shown), days |-> SubSeq(tot8, 2, 8), total |-> SumDays(tot8, 2, 8)]
               ELSE [n |-> Len(shown), msgs |-> SumF(LAMBDA a : a.total, shown),
                     avg |-> PerDay(tot8, SumF(LAMBDA a : a.total, shown), day, first), dupes |-> SumF(LAMBDA a : a.dupes, shown)]
      node(x) == [a |-> PrintFull(x.a), since |-> DayNode(x.first), sentn |-> x.sentn, sentnb |-> Bytes(x.sentnb), gotn |-> x.gotn, gotnb |-> Bytes(x.gotnb),
                  sente |-> x.sente, senteb |-> Bytes(x.senteb), gote |-> x.gote, goteb |-> Bytes(x.goteb), dupes |-> x.dupes]
  IN IF (q.noareas /\ q.nonodes) \/ day = 0 THEN r.exit # 0 /\ r.areas = << >> /\ r.nodes = << >>
     ELSE /\ r.exit = 0
          /\ r.from = DayStr(first) /\ r.to = DayStr(day)
          /\ IF q.noareas THEN r.areas = << >> /\ r.total = << >>
             ELSE ordered /\ r.total = <<total>> /\ (q.last7 => r.heads = [i \in 1..7 |-> Civil(day - i).d])
          /\ IF q.nonodes THEN r.nodes = << >> ELSE r.nodes = Map(node, SortSeq(ns, LAMBDA x, y : Less4(x.a, y.a)))
=============================================================================
