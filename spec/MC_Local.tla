------------------------------ MODULE MC_Local ------------------------------
(* Locally written mail in a few lines: a base is a list of messages, each   *)
(* to be exported or not; an editor, the tosser, the scanner, a rescan and   *)
(* maintenance work on it in any order.  Every history up to a depth is      *)
(* explored, for *.msg and JAM bases without and with high-water marks; the  *)
(* full specification has to agree with this view after every step, and each *)
(* message is exported once.  The histories are replayed with the real       *)
(* programs (cm/local.py).                                                   *)
EXTENDS CMTrace

CONSTANT Depth
VARIABLES hist, ab

World == Scenarios[sc]
Pool == World.steps
Cfg0 == World.cfg
IsJam == Cfg0.areas[1].base = "JAM"
Marks == IF IsJam THEN Cfg0.f.JAM_HIGHWATER ELSE Cfg0.f.MSG_HIGHWATER
Tags == {"ONE", "NETMAIL"}
Pos == Len(hist) + 1

(* ------------------------------ the small view --------------------------- *)
\* a message: its number, what it is, whether it is still to be exported, whether it is kept when it has been
\* hw, top: high-water mark, last number of the base; sent: what each system was sent; out: how often each message was exported
Ab0 == [base |-> [t \in Tags |-> << >>], hw |-> [t \in Tags |-> 0], top |-> [t \in Tags |-> IF IsJam THEN 0 ELSE 1],
        echo |-> [n \in 1..3 |-> << >>], mail |-> << >>, out |-> << >>]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Nums(s) == {s[i].n : i \in 1..Len(s)}
Top(b, t) == IF IsJam THEN b.top[t] ELSE MaxOf(Nums(b.base[t]) \cup {1})
\* a message is stored
Store(b, t, id, todo, ks) == LET n == Top(b, t) + 1 IN
  [b EXCEPT !.base[t] = Append(@, [n |-> n, id |-> id, todo |-> todo, ks |-> ks]), !.top[t] = n]
Drop1(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
AbEdit(b, m) ==
  IF m.edit = "post" THEN Store(b, m.area, "l" \o N(Pos), m.local /\ ~m.sent, m.ks)
  ELSE IF m.edit = "" \/ b.base[IF m.area = "" THEN "ONE" ELSE m.area] = << >> THEN b
  ELSE LET s == b.base[m.area] IN [b EXCEPT !.base[m.area] = Drop1(s, IF m.edit = "first" THEN 1 ELSE Len(s))]
\* links 1 and 2 may be sent messages, link 3 only sends some
Export(b, t, x) == LET c == [b EXCEPT !.out = Append(@, x.id)] IN
  IF t = "ONE" THEN [c EXCEPT !.echo[1] = Append(@, x.id), !.echo[2] = Append(@, x.id)] ELSE [c EXCEPT !.mail = Append(@, x.id)]
ScanT(b, t) ==
  LET s == b.base[t]
      todo == SelectSeq(s, LAMBDA x : x.todo /\ ~(Marks /\ x.n <= b.hw[t]))
      c == FoldLeft(LAMBDA a, x : Export(a, t, x), b, todo)
      left == SelectSeq(s, LAMBDA x : ~(SeqHas(todo, x) /\ x.ks))
      kept == SelectSeq(todo, LAMBDA x : ~x.ks)   \* the number of a deleted message is given again
      hw == IF ~Marks THEN 0 ELSE IF IsJam THEN b.top[t] ELSE IF kept = << >> THEN b.hw[t] ELSE kept[Len(kept)].n
  IN [c EXCEPT !.base[t] = [i \in 1..Len(left) |-> IF SeqHas(todo, left[i]) THEN [left[i] EXCEPT !.todo = FALSE] ELSE left[i]], !.hw[t] = hw]
Pack(b, t) ==
  LET s == b.base[t]
      under == Cardinality({i \in 1..Len(s) : s[i].n <= b.hw[t]})
  IN IF IsJam THEN b ELSE [b EXCEPT !.base[t] = [i \in 1..Len(s) |-> [s[i] EXCEPT !.n = i + 1]], !.hw[t] = IF s = << >> THEN @ ELSE IF under = 0 THEN 0 ELSE under + 1]
\* the limit of the area is two messages; the mark stays with the messages it covered
Purge(b) ==
  LET s == b.base["ONE"]
      cut == IF Len(s) > 2 THEN Len(s) - 2 ELSE 0
  IN [b EXCEPT !.base["ONE"] = SubSeq(s, cut + 1, Len(s))]
AbRun(b, m) ==
  CASE m.run = "idle" -> b
    [] m.run = "toss" -> [Store(b, "ONE", "t" \o N(Pos), FALSE, FALSE) EXCEPT !.echo[2] = Append(@, "t" \o N(Pos))]
    [] m.run = "scan" -> ScanT(ScanT(b, "NETMAIL"), "ONE")
    [] m.run = "rescan" -> [b EXCEPT !.echo[2] = @ \o Map(LAMBDA x : x.id, b.base["ONE"])]
    [] m.run = "pack" -> Pack(Pack(b, "ONE"), "NETMAIL")
    [] m.run = "maint" -> Pack(Pack(Purge(b), "ONE"), "NETMAIL")

(* -------------------- what the full specification says ------------------- *)
Base(t) == st.bases[FindArea(st.cfg, t)]
Live(ms) == SelectSeq(ms, LAMBDA m : ~IsJam \/ ~m.del)
\* event i as it is now
Now(i) ==
  LET e == Pool[i]
      b == Base(e.meta.area)
      live == Live(b.msgs)
      num == (IF IsJam THEN b.high ELSE MaxOf({m.num : m \in {b.msgs[x] : x \in 1..Len(b.msgs)}} \cup {1})) + 1
      e1 == IF e.edits = << >> THEN e
            ELSE IF e.meta.edit = "post" THEN [e EXCEPT !.edits[1].rec.num = num, !.edits[1].rec.subj = "l" \o N(Pos)]
            ELSE IF live = << >> THEN [e EXCEPT !.edits = << >>]
            ELSE [e EXCEPT !.edits[1].num = live[IF e.meta.edit = "first" THEN 1 ELSE Len(live)].num]
  IN IF e.meta.run # "toss" THEN e1
     ELSE [e1 EXCEPT !.files[1].pkt.msgs[1].subj = "t" \o N(Pos), !.files[1].pkt.msgs[1].lines[2] = SOH \o "MSGID: x " \o N(Pos) \o CR]

MInit == Init /\ hist = << >> /\ ab = Ab0
MNext == /\ Len(hist) < Depth
         /\ \E i \in 1..Len(Pool) : /\ hist' = Append(hist, i)
                                    /\ st' = Apply(st, Now(i))
                                    /\ ab' = AbRun(AbEdit(ab, Pool[i].meta), Pool[i].meta)
         /\ UNCHANGED <<sc, k, fail>>
MSpec == MInit /\ [][MNext]_<<vars, hist, ab>>

ToDo(m) == IF IsJam THEN JLocal(m) ELSE Local(m)
Stored == \A t \in Tags : Map(LAMBDA m : <<m.num, m.subj, ToDo(m)>>, Live(Base(t).msgs)) = Map(LAMBDA x : <<x.n, x.id, x.todo>>, ab.base[t])
Marked == Marks => \A t \in Tags : Base(t).hw = ab.hw[t]
SentTo(n) == FlattenSeq(Map(LAMBDA p : p.msgs, SelectSeq(st.ob, LAMBDA p : p.dest = Cfg0.nodes[n].a)))
Subjs(ms, echo) == Map(LAMBDA m : m.subj, SelectSeq(ms, LAMBDA m : (m.area # "") = echo))
Queued == \A n \in 1..3 : Subjs(SentTo(n), TRUE) = ab.echo[n] /\ Subjs(SentTo(n), FALSE) = (IF n = 2 THEN ab.mail ELSE << >>)
Nothing == Base("BAD").msgs = << >>
\* C14: nothing is exported twice, and what is no longer to be exported has been
Once == \A i, j \in 1..Len(ab.out) : ab.out[i] = ab.out[j] => i = j
Done == Len(hist) > 0 /\ Pool[hist[Len(hist)]].meta.run = "scan" /\ ~Marks => \A t \in Tags : \A i \in 1..Len(ab.base[t]) : ~ab.base[t][i].todo
\* marks hide nothing, unless the editor gave the number of a deleted message to a new one
Fresh == \A i \in 1..Len(hist) : Pool[hist[i]].meta.edit \notin {"first", "last"}
Hidden == Fresh => \A t \in Tags : \A i \in 1..Len(ab.base[t]) : ab.base[t][i].todo => ab.base[t][i].n > ab.hw[t]
=============================================================================
