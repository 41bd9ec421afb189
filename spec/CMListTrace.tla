---------------------------- MODULE CMListTrace ----------------------------
(* Conformance of crashlistout: the listing of an outbound directory shows   *)
(* what waits there for the systems asked for, and the right totals.         *)
(*   e.files   top (outbound directory), dir ("" or a directory of points),  *)
(*             name, size, date (as shown), lines (flow files and requests)  *)
(*   e.disk    path, size of every file that exists                          *)
(*   e.arg, e.env   directory, zone, pattern; "" when not given              *)
EXTENDS CMReport

Data == JsonDeserialize(IOEnv.CM_DATA)
Owned == JsonDeserialize(IOEnv.CM_OWNED)
Scenarios == Data.scenarios

VARIABLES sc, k, fail

Units(n) == IF n > 10000000 THEN N(n \div 1048576) \o "M" ELSE IF n > 10000 THEN N(n \div 1024) \o "K" ELSE N(n)
HexVal == [c \in {HexD[i] : i \in 1..16} |-> (CHOOSE i \in 1..16 : HexD[i] = c) - 1]
Hex4(s) == FoldStr(LAMBDA a, c : a * 16 + HexVal[c], 0, Low(s))
Exts == <<<<".req", "Request">>, <<".clo", "Crash">>, <<".dlo", "Direct">>, <<".flo", "Normal">>, <<".hlo", "Hold">>,
          <<".cut", "Crash">>, <<".dut", "Direct">>, <<".out", "Normal">>, <<".hut", "Hold">> >>
ExtIx(name) == IF Len(name) # 12 THEN 0 ELSE First(Exts, LAMBDA x : EqI(From(name, 9), x[1]))
InPath(top, dir, name) == (IF top = "." THEN "" ELSE top \o "/") \o (IF dir = "" THEN "" ELSE dir \o "/") \o name

Given(a, b, c) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE c
Top(e) == Given(e.arg.dir, e.env.dir, ".")
ZoneOf(e) == Num(Given(e.arg.zone, e.env.zone, "2"))
NodeOf(e, f) ==
  LET bossname == IF f.dir = "" THEN f.name ELSE f.dir
      at(s) == <<Hex4(Sub(s, 1, 4)), Hex4(Sub(s, 5, 8))>>
      b == at(bossname)
  IN <<ZoneOf(e), b[1], b[2], IF f.dir = "" THEN 0 ELSE at(f.name)[2]>>
Shown(e, f) == /\ f.top = Top(e) /\ ExtIx(f.name) # 0
               /\ f.dir = "" \/ (Len(f.dir) = 12 /\ EqI(From(f.dir, 9), ".pnt"))
               /\ e.arg.pat = "" \/ MatchPat(ParsePat(e.arg.pat), NodeOf(e, f), [open |-> FALSE, entries |-> << >>])

Used(f) == SelectSeq(Map(StripTrail, f.lines), LAMBDA l : l # "")
Marked(l) == At(l, 1) \in {"#", "^", "-"}
Ref(l) == IF Marked(l) THEN From(l, 2) ELSE l
SizeOf(e, f, l) == LET p == IF HasChar(Ref(l), "/") THEN Ref(l) ELSE InPath(f.top, f.dir, Ref(l))
                       i == First(e.disk, LAMBDA d : d.path = p)
                   IN IF i = 0 THEN -1 ELSE e.disk[i].size
Sizes(e, f) == SelectSeq(Map(LAMBDA l : SizeOf(e, f, l), Used(f)), LAMBDA n : n >= 0)
SumOf(ns) == FoldLeft(LAMBDA a, b : a + b, 0, ns)
\* what one file adds to the totals: bytes, files, requests
Counts(e, f) == LET x == ExtIx(f.name) IN
  IF x = 1 THEN <<0, 0, Len(Used(f))>> ELSE IF x <= 5 THEN <<SumOf(Sizes(e, f)), Len(Sizes(e, f)), 0>> ELSE <<f.size, 1, 0>>
Cell(s, n) == PadR(Take(s, n), n)
RowOf(e, f) ==
  LET x == ExtIx(f.name)  c == Counts(e, f)
      bf == IF x = 1 THEN "-/" \o N(c[3]) ELSE Units(c[1]) \o "/" \o N(c[2])
      head == Cell(Exts[x][2], 8) \o " " \o Cell(Print4(NodeOf(e, f)), 17) \o " " \o Cell(f.date, 16) \o " " \o PadL(Take(bf, 7), 7)
              \o "   " \o (IF f.dir = "" THEN "" ELSE f.dir \o "/") \o f.name
      todo(l) == IF At(l, 1) \in {"#", "^"} THEN "(To be truncated)" ELSE IF At(l, 1) = "-" THEN "(To be deleted)" ELSE ""
      size(l) == IF SizeOf(e, f, l) < 0 THEN "Not found" ELSE Units(SizeOf(e, f, l))
      content(l) == IF x = 1 THEN " " \o l ELSE " " \o Cell(Ref(l), 39) \o " " \o PadL(size(l), 10) \o "   " \o todo(l)
  IN [node |-> NodeOf(e, f), lines |-> <<head>> \o (IF e.verbose /\ x <= 5 THEN Map(content, Used(f)) ELSE << >>)]

Facets(e) ==
  LET fs == SelectSeq(e.files, LAMBDA f : Shown(e, f))
      rows == Map(LAMBDA f : RowOf(e, f), fs)
      tot(i) == SumOf(Map(LAMBDA f : Counts(e, f)[i], fs))
      end == IF fs = << >> THEN "Outbound directory is empty."
             ELSE "Totally " \o Units(tot(1)) \o " bytes in " \o N(tot(2)) \o " files to send, " \o N(tot(3)) \o " requests."
      node(r) == LET i == First(rows, LAMBDA x : x.lines = r) IN rows[i].node
      o == e.obs
      same == Len(o.rows) = Len(rows) /\ ToSet(o.rows) = {rows[i].lines : i \in 1..Len(rows)}
  IN (IF o.exit = 0 THEN {} ELSE {"exit"})
     \cup (IF same THEN {} ELSE {"lo.rows"})
     \cup (IF o.kept THEN {} ELSE {"lo.kept"})
     \cup (IF o.end = end THEN {} ELSE {"lo.total"})
     \cup (IF ~same \/ \A i \in 1..(Len(rows) - 1) : ~Less4(node(o.rows[i + 1]), node(o.rows[i])) THEN {} ELSE {"lo.order"})

Init == sc \in 1..Len(Scenarios) /\ k = 0 /\ fail = {}
Steps == Scenarios[sc].steps
Next == /\ fail = {} /\ k < Len(Steps)
        /\ k' = k + 1 /\ sc' = sc
        /\ fail' = Facets(Steps[k'])
        /\ IF fail' = {} THEN TRUE ELSE PrintT("DIFF|" \o N(Scenarios[sc].id) \o "|" \o N(k') \o "|" \o JoinSep(SetToSeq(fail'), ","))
vars == <<sc, k, fail>>
Spec == Init /\ [][Next]_vars
OwnedSet == {Owned[i] : i \in 1..Len(Owned)}
Conforms == fail \cap OwnedSet = {}
Short == [scenario |-> Scenarios[sc].id, step |-> k, fail |-> fail]
=============================================================================
