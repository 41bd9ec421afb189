------------------------------- MODULE CMMsg -------------------------------
(* Messages in memory: text, control lines, SEEN-BY and PATH.               *)
EXTENDS CMAddr, Bitwise

(* attribute bits *)
PVT == 1  CRASH == 2  RECD == 4  SENT == 8  FATTACH == 16  INTRANSIT == 32
ORPHAN == 64  KILLSENT == 128  ALOCAL == 256  HOLD == 512  FREQ == 2048
RREQ == 4096  IRRR == 8192  AUDIT == 16384
Bit(a, b) == (a \div b) % 2 = 1
SetBit(a, b) == IF Bit(a, b) THEN a ELSE a + b
ClrBit(a, b) == IF Bit(a, b) THEN a - b ELSE a

\* a fresh in-memory message
NewMM == [area |-> "", orig |-> Null4, dest |-> Null4, porig |-> Null4, pdest |-> Null4,
          origin |-> Null4, to |-> "", from |-> "", subj |-> "", date |-> "",
          msgid |-> "", reply |-> "", attr |-> 0, cost |-> 0,
          text |-> << >>, sb |-> {}, path |-> << >>,
          resc |-> FALSE, exported |-> FALSE, tossed |-> FALSE, nosec |-> FALSE,
          autogen |-> FALSE, twit |-> FALSE, kill |-> FALSE]

BodyLen(mm) == FoldLeft(LAMBDA a, s : a + Len(s), 0, mm.text)
Body(mm) == Join(mm.text)

(* ------------------------------ SEEN-BY --------------------------------- *)
SBTok(s, tok) ==
  LET t == Take(tok, 59)
      e == Skip(t, 1, Digits)
      num == U16(Num(Sub(t, 1, e - 1)))
  IN IF At(t, e) = "/" THEN LET f == U16(Atoi(From(t, e + 1))) IN [sb |-> s.sb \cup {<<num, f>>}, net |-> num]
     ELSE IF e > Len(t) THEN [s EXCEPT !.sb = @ \cup {<<s.net, num>>}]
     ELSE s
\* str: the line after "SEEN-BY:" and one more character
AddSeenBy(sb, str) ==
  LET e == Scan(str, 1, {CR})
      r == FoldLeft(SBTok, [sb |-> sb, net |-> 0], Tokens(Sub(str, 1, e - 1), {" "}))
  IN r.sb

SBLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
SBSorted(sb) == SetToSortSeq(sb \ {<<0, 0>>}, SBLess)
SBLine(s, e) ==
  LET piece == " " \o (IF e[1] # s.net THEN N(e[1]) \o "/" ELSE "") \o N(e[2])
  IN IF Len(s.buf) + Len(piece) > 77
     THEN [lines |-> Append(s.lines, s.buf \o CR), buf |-> "SEEN-BY: " \o N(e[1]) \o "/" \o N(e[2]), net |-> e[1]]
     ELSE [s EXCEPT !.buf = @ \o piece, !.net = e[1]]
SBLines(sb) ==
  LET r == FoldLeft(SBLine, [lines |-> << >>, buf |-> "SEEN-BY:", net |-> 0], SBSorted(sb))
  IN IF Len(r.buf) > 8 THEN Append(r.lines, r.buf \o CR) ELSE r.lines

(* -------------------------------- PATH ---------------------------------- *)
AddPathStr(path, str) == IF str = "" THEN path ELSE Append(path, StripTrail(Take(str, 99)))

PathTok(s, tok) ==
  LET r == Parse4(Take(tok, 39))
      net == IF r.a[2] = 0 THEN s.net ELSE r.a[2]
  IN IF r.ok THEN [ok |-> TRUE, net |-> net, a |-> <<net, r.a[3], r.a[4]>>]
     ELSE [s EXCEPT !.ok = FALSE]
AddNodePath(path, a) ==
  LET last == IF path = << >> THEN "" ELSE path[Len(path)]
      r == FoldLeft(PathTok, [ok |-> FALSE, net |-> 0, a |-> <<0, 0, 0>>], Tokens(last, {" ", TAB}))
      pt == IF a[4] # 0 THEN "." \o N(a[4]) ELSE ""
      full == N(a[2]) \o "/" \o N(a[3]) \o pt
      short == (IF r.ok /\ r.a[1] = a[2] THEN N(a[3]) ELSE N(a[2]) \o "/" \o N(a[3])) \o pt
  IN IF r.ok /\ r.a = <<a[2], a[3], a[4]>> THEN path
     ELSE IF path # << >> /\ Len(short) + Len(last) <= 70
          THEN [path EXCEPT ![Len(path)] = @ \o " " \o short]
     ELSE Append(path, full)
PathLines(path) == [i \in 1..Len(path) |-> SOH \o "PATH: " \o path[i] \o CR]

(* ---------------------------- control lines ----------------------------- *)
KlArg(s, i) == LET e == Scan(s, i, {CR}) IN Sub(s, i, e - 1)

\* Parse5D of an origin address "z:n/f.p@domain": the domain is dropped
Origin(str) ==
  LET P == {i \in 1..Len(str) : SubSeq(str, i, i) = "("}
      p == IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
      b == Scan(str, p + 1, Digits \cup {CR})
      e == Scan(str, b, {")"})
      adr == Take(Sub(str, b, e - 1), 49)
      at == Find(adr, "@", 1)
  IN IF p = 0 \/ At(str, b) \in {"", CR} THEN [ok |-> FALSE, a |-> Null4]
     ELSE Parse4(IF at = 0 THEN adr ELSE Sub(adr, 1, at - 1))

Kludge(mm, s) ==
  IF Starts(s, SOH \o "RESCANNED") THEN [mm EXCEPT !.resc = TRUE]
  ELSE IF Starts(s, SOH \o "MSGID:") THEN [mm EXCEPT !.msgid = Take(KlArg(s, 9), 79)]
  ELSE IF Starts(s, SOH \o "REPLY:") THEN [mm EXCEPT !.reply = Take(KlArg(s, 9), 79)]
  ELSE IF mm.area # "" THEN mm
  ELSE IF Starts(s, SOH \o "FMPT") THEN [mm EXCEPT !.orig[4] = U16(Atoi(From(s, 7)))]
  ELSE IF Starts(s, SOH \o "TOPT") THEN [mm EXCEPT !.dest[4] = U16(Atoi(From(s, 7)))]
  ELSE IF Starts(s, SOH \o "INTL") THEN
     LET b1 == IF At(s, 6) = ":" THEN 8 ELSE 7
         e1 == Scan(s, b1, {" "})
         d  == Parse4(Sub(s, b1, e1 - 1))
         b2 == e1 + 1
         e2 == Scan(s, b2, {" ", CR})
         o  == Parse4(Sub(s, b2, e2 - 1))
         m1 == IF d.ok THEN [mm EXCEPT !.dest = <<d.a[1], d.a[2], d.a[3], @[4]>>] ELSE mm
     IN IF o.ok THEN [m1 EXCEPT !.orig = <<o.a[1], o.a[2], o.a[3], @[4]>>] ELSE m1
  ELSE mm

AddLine(mm, s) ==
  IF mm.area # "" /\ Starts(s, "SEEN-BY:") THEN [mm EXCEPT !.sb = AddSeenBy(@, From(s, 10))]
  ELSE IF mm.area # "" /\ Starts(s, SOH \o "PATH:") THEN [mm EXCEPT !.path = AddPathStr(@, From(s, 8))]
  ELSE LET m1 == IF mm.area # "" /\ Starts(s, " * Origin: ")
                 THEN LET o == Origin(s)
                      IN IF o.ok THEN [mm EXCEPT !.origin = IF o.a[1] = 0 THEN <<mm.porig[1], o.a[2], o.a[3], o.a[4]>> ELSE o.a] ELSE mm
                 ELSE IF Starts(s, SOH) THEN Kludge(mm, s) ELSE mm
       IN [m1 EXCEPT !.text = Append(@, s)]
AddLines(mm, ss) == FoldLeft(AddLine, mm, ss)

\* the reader cuts lines after 198 bytes
RECURSIVE Cut(_)
Cut(s) == IF Len(s) <= 198 THEN <<s>>
          ELSE <<SubSeq(s, 1, 198)>> \o Cut(From(s, 199))
CutLine(s) ==  \* a line with its terminator: the terminator does not count
  LET n == IF Len(s) > 0 /\ (SubSeq(s, Len(s), Len(s)) \in {CR, LF}) THEN Len(s) - 1 ELSE Len(s)
  IN IF n < 198 THEN <<s>> ELSE Cut(s)
CutLines(ss) == IF \A i \in 1..Len(ss) : Len(ss[i]) < 198 THEN ss
                ELSE FlattenSeq([i \in 1..Len(ss) |-> CutLine(ss[i])])

\* add a CR when the text does not end with one
EndCR(mm) == LET n == Len(mm.text) IN
  IF n = 0 THEN mm
  ELSE LET s == mm.text[n] IN
    IF s # "" /\ SubSeq(s, Len(s), Len(s)) = CR THEN mm ELSE [mm EXCEPT !.text = Append(@, CR)]
=============================================================================
