------------------------------ MODULE CMFilter -----------------------------
(* Message filters (doc/filter.txt): expressions over a message, and the     *)
(* commands that are carried out when one holds.  B is the action that       *)
(* returns a message to its sender.                                          *)
EXTENDS CMAreafix

(* ------------------------------ variables ------------------------------- *)
\* The text of a message as logical lines: what stands before and after the first SOH of each
FText(mm) ==
  LET step(a, p) ==
        LET buf == a.buf \o p
            i == IF HasChar(buf, SOH) THEN Find(buf, SOH, 1) ELSE 0
            term == Ends(p, CR) \/ Ends(p, LF)
        IN IF ~term THEN [a EXCEPT !.buf = buf]
           ELSE [k |-> Ends(p, LF) /\ (a.k \/ i > 0), buf |-> "",
                 txt |-> IF a.k \/ i = 1 THEN a.txt ELSE Append(a.txt, IF i = 0 THEN buf ELSE Sub(buf, 1, i - 1)),
                 kl |-> IF a.k THEN Append(a.kl, buf) ELSE IF i > 0 THEN Append(a.kl, From(buf, i)) ELSE a.kl]
      ini == [k |-> FALSE, buf |-> "", txt |-> << >>, kl |-> << >>]
  IN FoldLeft(step, ini, Append(mm.text, CR))

\* strings: "*" matches the rest, "?" one character, case does not matter
RECURSIVE MatchFrom(_, _, _)
MatchFrom(p, s, i) == IF i > Len(p) THEN i > Len(s)
                      ELSE LET c == SubSeq(p, i, i) IN
                           c = "*" \/ (i <= Len(s) /\ (c = "?" \/ c = SubSeq(s, i, i)) /\ MatchFrom(p, s, i + 1))
StrMatch(p, s) == MatchFrom(Low(p), Low(s), 1)
InStr(p, s) == Len(p) <= Len(s) /\ LET l == Low(s) q == Low(p) IN \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(l, i, i + Len(p) - 1) = q

FSource(mm) == IF mm.tossed THEN "TOSSED" ELSE IF mm.autogen THEN "CRASHMAIL" ELSE IF mm.exported THEN "EXPORTED" ELSE "OTHER"
FFrom(mm) == IF mm.area = "" THEN mm.orig ELSE mm.origin
FTo(mm) == IF mm.area = "" THEN mm.dest ELSE Null4
Boss(a) == [a EXCEPT ![4] = 0]
LocalPoint(cfg, a) == a[4] # 0 /\ \E i \in 1..Len(cfg.akas) : cfg.akas[i].a[4] = 0 /\ Same4(cfg.akas[i].a, Boss(a))
InNl(st, a) == ~st.nl.open \/ First(st.nl.entries, LAMBDA e : e.a = a) # 0

(* ----------------------------- expressions ------------------------------ *)
VarChars == UpSet \cup {SubSeq(LoStr, i, i) : i \in 1..26} \cup {"_"}
Atom(st, mm, s) ==
  LET e == Skip(s, 1, VarChars)
      var == IF e = 1 THEN "" ELSE LET v == Sub(s, 1, e - 1) IN CHOOSE w \in {"FROMADDR", "TOADDR", "FROMNAME", "TONAME", "SUBJECT", "AREA", "TYPE", "SOURCE",
                "FILEATTACH", "TOLOCALAKA", "FROMLOCALAKA", "TOLOCALPOINT", "FROMLOCALPOINT", "EXISTSCFG_FROMADDR", "EXISTSCFG_FROMBOSS",
                "EXISTSCFG_TOADDR", "EXISTSCFG_TOBOSS", "EXISTSNL_FROMADDR", "EXISTSNL_FROMBOSS", "EXISTSNL_TOADDR", "EXISTSNL_TOBOSS",
                "TEXT", "KLUDGES"} : EqI(w, v)
      op == At(s, e)
      d0 == From(s, e + 1)
      d1 == IF At(d0, 1) = "\"" THEN From(d0, 2) ELSE d0
      d == IF Ends(d1, "\"") THEN Sub(d1, 1, Len(d1) - 1) ELSE d1
      str(x) == IF op = "|" THEN InStr(d, x) ELSE StrMatch(d, x)
      adr(a) == MatchPat(ParsePat(d), a, st.nl)
      bool(b) == IF op = "" THEN b ELSE IF EqI(d, "TRUE") THEN b ELSE ~b
      f == FFrom(mm)
      t == FTo(mm)
  IN CASE var = "FROMADDR" -> adr(f)
       [] var = "TOADDR" -> adr(t)
       [] var = "FROMNAME" -> str(mm.from)
       [] var = "TONAME" -> str(mm.to)
       [] var = "SUBJECT" -> str(mm.subj)
       [] var = "AREA" -> str(mm.area)
       [] var = "TYPE" -> str(IF mm.area = "" THEN "NETMAIL" ELSE "ECHOMAIL")
       [] var = "SOURCE" -> str(FSource(mm))
       [] var = "FILEATTACH" -> bool(Bit(mm.attr, FATTACH))
       [] var = "TOLOCALAKA" -> bool(FindAka(st.cfg, t) # 0)
       [] var = "FROMLOCALAKA" -> bool(FindAka(st.cfg, f) # 0)
       [] var = "TOLOCALPOINT" -> bool(LocalPoint(st.cfg, t))
       [] var = "FROMLOCALPOINT" -> bool(LocalPoint(st.cfg, f))
       [] var = "EXISTSCFG_FROMADDR" -> bool(FindNode(st.cfg, f) # 0)
       [] var = "EXISTSCFG_FROMBOSS" -> bool(FindNode(st.cfg, Boss(f)) # 0)
       [] var = "EXISTSCFG_TOADDR" -> bool(FindNode(st.cfg, t) # 0)
       [] var = "EXISTSCFG_TOBOSS" -> bool(FindNode(st.cfg, Boss(t)) # 0)
       [] var = "EXISTSNL_FROMADDR" -> bool(InNl(st, f))
       [] var = "EXISTSNL_FROMBOSS" -> bool(InNl(st, Boss(f)))
       [] var = "EXISTSNL_TOADDR" -> bool(InNl(st, t))
       [] var = "EXISTSNL_TOBOSS" -> bool(InNl(st, Boss(t)))
       [] var = "TEXT" -> LET x == FText(mm).txt IN \E i \in 1..Len(x) : InStr(d, x[i])
       [] var = "KLUDGES" -> LET x == FText(mm).kl IN \E i \in 1..Len(x) : InStr(d, x[i])

\* the position after the parenthesis that closes the one before i
RECURSIVE CloseP(_, _, _, _), AtomEnd(_, _, _), EvalE(_, _, _), Term(_, _, _, _), Rest(_, _, _, _, _)
CloseP(s, i, n, qt) ==
  LET c == At(s, i) IN
  IF n = 0 \/ c = "" THEN i
  ELSE IF c = "\"" THEN CloseP(s, i + 1, n, ~qt)
  ELSE CloseP(s, i + 1, IF qt THEN n ELSE IF c = "(" THEN n + 1 ELSE IF c = ")" THEN n - 1 ELSE n, qt)
\* the position after the atom at i: up to a blank outside quotes, or the second quote
AtomEnd(s, i, qt) ==
  LET c == At(s, i) IN
  IF c = "" THEN i ELSE IF c = "\"" THEN (IF qt THEN i + 1 ELSE AtomEnd(s, i + 1, TRUE))
  ELSE IF c = " " /\ ~qt THEN i ELSE AtomEnd(s, i + 1, qt)

Term(st, mm, s, i) ==
  LET b == Skip(s, i, {" "})
      not == StartsI(From(s, b), "NOT ")
      b2 == IF not THEN b + 4 ELSE b
      par == At(s, b2) = "("
      e == IF par THEN CloseP(s, b2 + 1, 1, FALSE) ELSE AtomEnd(s, b2, FALSE)
      v == IF par THEN EvalE(st, mm, Sub(s, b2 + 1, e - 2)) ELSE Atom(st, mm, Sub(s, b2, e - 1))
  IN [v |-> IF not THEN ~v ELSE v, e |-> e]
\* AND and OR are of equal precedence, from left to right
Rest(st, mm, s, v, i) ==
  LET b == Skip(s, i, {" "})
      e == Scan(s, b, {" "})
      op == Sub(s, b, e - 1)
      t == Term(st, mm, s, e)
  IN IF b > Len(s) THEN v
     ELSE Rest(st, mm, s, IF EqI(op, "AND") THEN v /\ t.v ELSE v \/ t.v, t.e)
EvalE(st, mm, s) == LET t == Term(st, mm, s, 1) IN Rest(st, mm, s, t.v, t.e)

(* ------------------------------- commands ------------------------------- *)
RECURSIVE Expand(_, _, _)
Expand(mm, cmd, i) ==
  LET c == At(cmd, i)
      d == At(cmd, i + 1)
      x == CASE d = "a" -> mm.area
             [] d \in {"r", "R", "m", "M"} -> ""
             [] d \in {"s", "S"} -> mm.subj
             [] d \in {"x", "X"} -> mm.date
             [] d \in {"f", "F"} -> mm.from
             [] d \in {"t", "T"} -> mm.to
             [] d \in {"o", "O"} -> Print4(FFrom(mm))
             [] d \in {"d", "D"} -> Print4(mm.dest)
             [] OTHER -> d
  IN IF c = "" THEN "" ELSE IF c = "%" /\ d # "" THEN x \o Expand(mm, cmd, i + 2) ELSE c \o Expand(mm, cmd, i + 1)
FExpand(mm, cmd) == Take(Expand(mm, cmd, 1), 399)

Remap(st, mm, name, pat) ==
  LET nd == ExpandPat(ParseDestPat(pat), mm.dest, st.nl)
      nt == IF name = "*" THEN mm.to ELSE Take(name, 35)
      ri == FindRoute(st, nd)
      my == IF ri = 0 THEN Null4 ELSE st.cfg.akas[st.cfg.routes[ri].aka].a
      isadr(i) == LineStart(mm.text, i) /\ Len(mm.text[i]) > 5 /\ \E k \in {"INTL", "FMPT", "TOPT"} : Starts(mm.text[i], SOH \o k)
      keep == SelectSeq([i \in 1..Len(mm.text) |-> i], LAMBDA i : ~isadr(i))
      m1 == [mm EXCEPT !.dest = nd, !.to = nt, !.text = << >>]
      m2 == Kludges(st.cfg, m1)
      m3 == [m2 EXCEPT !.text = @ \o [k \in 1..Len(keep) |-> mm.text[keep[k]]]]
  IN IF mm.area # "" THEN mm
     ELSE AddLines(m3, <<SOH \o "Remapped to " \o nt \o " at " \o PrintFull(nd) \o " by " \o PrintFull(my) \o CR,
                         SOH \o "Message originally to " \o mm.to \o " at " \o PrintFull(mm.dest) \o CR>>)

\* another sender: the control lines name the new address, the way of the message until now is forgotten
Masquerade(st, mm, name, pat) ==
  LET no == ExpandPat(ParseDestPat(pat), mm.orig, st.nl)
      net == mm.area = ""
      new(id) == LET i == Find(id, " ", 1) IN IF i = 0 THEN id ELSE Take(PrintFull(no) \o " " \o From(id, i + 1), 79)
      \* the address in an origin line
      org(l) == LET P == {i \in 10..Len(l) : At(l, i) = "("}
                    a == IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
                    z == IF a = 0 THEN 0 ELSE Find(l, ")", a + 1)
                IN IF Len(l) <= 9 \/ ~Starts(l, " * Origin") \/ a = 0 \/ z = 0 THEN l ELSE Take(l, a) \o PrintFull(no) \o From(l, z)
      gone(l) == (\E k \in {"INTL", "FMPT", "TOPT"} : Starts(l, SOH \o k) /\ Len(l) > 5)
                 \/ (Starts(l, SOH \o "MSGID") /\ Len(l) > 6) \/ (net /\ Starts(l, SOH \o "REPLY") /\ Len(l) > 6) \/ (Starts(l, SOH \o "Via") /\ Len(l) > 4)
      keep == SelectSeq([i \in 1..Len(mm.text) |-> i], LAMBDA i : ~(LineStart(mm.text, i) /\ gone(mm.text[i])))
      rest == [k \in 1..Len(keep) |-> IF LineStart(mm.text, keep[k]) THEN org(mm.text[keep[k]]) ELSE mm.text[keep[k]]]
      m1 == [mm EXCEPT !.from = IF name = "*" THEN @ ELSE Take(name, 35), !.msgid = new(@), !.reply = IF net THEN new(@) ELSE @, !.orig = no,
                       !.text = (IF Find(mm.msgid, " ", 1) # 0 THEN <<SOH \o "MSGID: " \o new(mm.msgid) \o CR>> ELSE << >>)
                                \o (IF net /\ Find(mm.reply, " ", 1) # 0 THEN <<SOH \o "REPLY: " \o new(mm.reply) \o CR>> ELSE << >>)]
      m2 == IF net THEN Kludges(st.cfg, m1) ELSE [m1 EXCEPT !.origin = no]
  IN [m2 EXCEPT !.text = @ \o rest, !.sb = IF net THEN {} ELSE {<<no[2], no[3]>>}, !.path = IF net THEN << >> ELSE AddNodePath(<< >>, <<no[1], no[2], no[3], 0>>)]

Copy(st, mm, tag) ==
  LET ai == FindArea(st.cfg, tag)
      m2 == IF mm.area = "" THEN mm ELSE [mm EXCEPT !.text = <<"AREA:" \o mm.area \o CR>> \o @]
  IN AddText(StoreMsg(st, ai, m2), ai)

FCmd(B(_, _, _, _), r, c) ==
  LET st == r.st  mm == r.mm IN
  IF mm.kill THEN r
  ELSE CASE c.cmd = "KILL" -> R(st, [mm EXCEPT !.kill = TRUE])
         [] c.cmd = "TWIT" -> R(st, [mm EXCEPT !.twit = TRUE])
         [] c.cmd = "COPY" -> R(Copy(st, mm, c.arg), mm)
         [] c.cmd = "WRITEBAD" -> R(WriteBad(st, mm, c.arg), mm)
         [] c.cmd = "WRITELOG" -> R([st EXCEPT !.log = Append(@, From(FExpand(mm, c.arg), 5))], mm)   \* "FLT!" marks the line
         [] c.cmd = "BOUNCEMSG" -> R(B(st, mm, FExpand(mm, c.arg), FALSE), mm)
         [] c.cmd = "BOUNCEHEADER" -> R(B(st, mm, FExpand(mm, c.arg), TRUE), mm)
         [] c.cmd = "REMAPMSG" -> R(st, Remap(st, mm, c.arg, c.pat))
         [] c.cmd = "MASQUERADE" -> R(st, Masquerade(st, mm, c.arg, c.pat))
         \* an external program: the message is dropped when it succeeds
         [] c.cmd = "EXECUTE" -> R(st, [mm EXCEPT !.kill = c.pat = "0"])

Filters(B(_, _, _, _), st0, mm0) ==
  FoldLeft(LAMBDA r, f : IF r.mm.kill \/ ~EvalE(r.st, r.mm, f.expr) THEN r
                         ELSE FoldLeft(LAMBDA q, c : FCmd(B, q, c), r, f.cmds),
           R(st0, mm0), st0.cfg.filters)
=============================================================================
