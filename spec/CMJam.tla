------------------------------- MODULE CMJam -------------------------------
(* JAM message bases: how a message in memory becomes a stored message       *)
(* (header attributes, subfields, text), how it becomes a message in memory  *)
(* again, and how messages are linked to the messages they answer.           *)
(* A stored message: num, the header fields, fl (the subfields that are no   *)
(* header fields, in order: [id, d]), text, del, rto/r1/rn (links).          *)
EXTENDS CMMsg

PRODUCT == "CrashMail II/Linux 1.5.1"

\* the attributes: name in a FLAGS line, JAM bit, bit in packets (0: none)
JamFlags == <<
  [n |-> "PVT", j |-> 4,        f |-> PVT],      [n |-> "HLD", j |-> 128,      f |-> HOLD],
  [n |-> "CRA", j |-> 256,      f |-> CRASH],    [n |-> "K/S", j |-> 32,       f |-> KILLSENT],
  [n |-> "SNT", j |-> 16,       f |-> SENT],     [n |-> "RCV", j |-> 8,        f |-> RECD],
  [n |-> "A/S", j |-> 64,       f |-> 0],        [n |-> "DIR", j |-> 1024,     f |-> 0],
  [n |-> "FIL", j |-> 8192,     f |-> FATTACH],  [n |-> "FRQ", j |-> 4096,     f |-> FREQ],
  [n |-> "IMM", j |-> 512,      f |-> 0],        [n |-> "KFS", j |-> 32768,    f |-> 0],
  [n |-> "TFS", j |-> 16384,    f |-> 0],        [n |-> "LOK", j |-> 1,        f |-> ALOCAL],
  [n |-> "RRQ", j |-> 65536,    f |-> RREQ],     [n |-> "CFM", j |-> 131072,   f |-> 0],
  [n |-> "FPU", j |-> 4194304,  f |-> 0],        [n |-> "",    j |-> 2,        f |-> INTRANSIT],
  [n |-> "",    j |-> 262144,   f |-> ORPHAN] >>
JLOCAL == 1  JSENT == 16  JKILLSENT == 32  JECHO == 16777216  JNET == 33554432

JamAttr(a) == FoldLeft(LAMBDA acc, x : IF x.f # 0 /\ Bit(a, IF x.f = 0 THEN 1 ELSE x.f) THEN SetBit(acc, x.j) ELSE acc, 0, JamFlags)
FidoAttr(j) == FoldLeft(LAMBDA acc, x : IF x.f # 0 /\ Bit(j, x.j) THEN SetBit(acc, IF x.f = 0 THEN 1 ELSE x.f) ELSE acc, 0, JamFlags)

(* ------------------------------- import --------------------------------- *)
Fld(id, d) == [id |-> id, d |-> d]
NoLF(s) == IF ~HasChar(s, LF) THEN s ELSE Join(SelectSeq([i \in 1..Len(s) |-> SubSeq(s, i, i)], LAMBDA c : c # LF))

\* FLAGS: known names become attributes, the others are kept
FlagWord(acc, w) ==
  LET k == First(JamFlags, LAMBDA x : x.n # "" /\ EqI(x.n, w))
  IN IF k # 0 THEN [acc EXCEPT !.attr = SetBit(@, JamFlags[k].j)] ELSE [acc EXCEPT !.rest = Append(@, w)]

JamLine(acc, l) ==
  LET arg(n) == StripLeadTrail(From(l, n))
      add(id, n) == [acc EXCEPT !.fl = Append(@, Fld(id, arg(n)))]
      fw == FoldLeft(FlagWord, [attr |-> acc.attr, rest |-> << >>], Tokens(arg(8), {" ", TAB}))
  IN IF ~Starts(l, SOH) THEN [acc EXCEPT !.text = Append(@, l)]
     ELSE IF Starts(l, SOH \o "PID:") THEN add(7, 6)
     ELSE IF Starts(l, SOH \o "MSGID:") THEN add(4, 8)
     ELSE IF Starts(l, SOH \o "REPLY:") THEN add(5, 8)
     ELSE IF Starts(l, SOH \o "FLAGS:") THEN
          [acc EXCEPT !.attr = fw.attr, !.fl = IF fw.rest = << >> THEN @ ELSE Append(@, Fld(2003, JoinSep(fw.rest, " ")))]
     ELSE IF Starts(l, SOH \o "INTL") \/ Starts(l, SOH \o "TOPT") \/ Starts(l, SOH \o "FMPT") THEN acc
     ELSE add(2000, 2)

JamFiles(subj, id) == LET t == Tokens(subj, {" ", ","}) IN [i \in 1..Len(t) |-> Fld(id, t[i])]

JamRec(num, mm, sbl) ==
  LET echo == mm.area # ""
      enc == (IF Bit(mm.attr, FATTACH) THEN JamFiles(mm.subj, 9) ELSE << >>)
             \o (IF Bit(mm.attr, FREQ) THEN JamFiles(mm.subj, 11) ELSE << >>)
      r == FoldLeft(JamLine, [attr |-> JamAttr(mm.attr) + (IF echo THEN JECHO ELSE JNET), fl |-> enc, text |-> << >>],
                    SplitLines(NoLF(Body(mm)), 1))
  IN [num |-> num, from |-> mm.from, to |-> mm.to, subj |-> mm.subj, date |-> mm.date, attr |-> r.attr, cost |-> mm.cost,
      oaddr |-> IF echo THEN Print4(mm.origin) ELSE Print4(mm.orig), daddr |-> IF echo THEN "" ELSE Print4(mm.dest),
      fl |-> r.fl \o [i \in 1..Len(sbl) |-> Fld(2001, StripTrail(From(sbl[i], 10)))]
                  \o [i \in 1..Len(mm.path) |-> Fld(2002, mm.path[i])],
      text |-> Join(r.text), del |-> FALSE, rto |-> 0, r1 |-> 0, rn |-> 0, keep |-> "0,0,4294967295,0"]

(* ------------------------------- export --------------------------------- *)
JamAddr(s) == LET at == Find(s, "@", 1) IN Parse4(IF at = 0 THEN s ELSE Sub(s, 1, at - 1))
JamKludge(id) == CASE id = 4 -> SOH \o "MSGID: " [] id = 5 -> SOH \o "REPLY: " [] id = 7 -> SOH \o "PID: " [] id = 2000 -> SOH
                   [] id = 2001 -> "SEEN-BY: " [] id = 2002 -> SOH \o "PATH: " [] OTHER -> ""
JamMask(a) == FoldLeft(LAMBDA acc, b : IF Bit(a, b) THEN acc + b ELSE acc, 0, <<PVT, CRASH, FATTACH, FREQ, RREQ, IRRR, AUDIT, HOLD>>)

\* area: the area, aka: its address; rescan or scan
JamExport(cfg, area, aka, rec, rescan) ==
  LET net == area.type = "NETMAIL"
      o == JamAddr(rec.oaddr)
      d == JamAddr(rec.daddr)
      kl == SelectSeq(rec.fl, LAMBDA x : JamKludge(x.id) # "")
      file == First(rec.fl, LAMBDA x : x.id = 9 /\ x.d # "")
      fl == LastIdx(rec.fl, LAMBDA x : x.id = 2003)
      w0 == IF fl = 0 THEN "" ELSE SOH \o "FLAGS: " \o Take(rec.fl[fl].d, 150)
      words == FoldLeft(LAMBDA acc, x : IF Bit(rec.attr, x.j) /\ x.f = 0 /\ x.n # "" /\ Len(acc) < 90
                                        THEN (IF acc = "" THEN SOH \o "FLAGS: " ELSE acc \o " ") \o x.n ELSE acc, w0, JamFlags)
      a0 == FidoAttr(rec.attr)
      m0 == [NewMM EXCEPT !.area = IF net THEN "" ELSE area.tag,
               !.orig = IF o.ok THEN o.a ELSE Null4, !.dest = IF d.ok THEN d.a ELSE Null4,
               !.from = Take(rec.from, 35), !.to = Take(rec.to, 35),
               !.subj = Take(IF file # 0 THEN rec.fl[file].d ELSE rec.subj, 71),
               !.date = rec.date, !.cost = rec.cost,
               !.attr = JamMask(IF file # 0 THEN SetBit(a0, FATTACH) ELSE a0)]
      m1 == AddLines(m0, [i \in 1..Len(kl) |-> JamKludge(kl[i].id) \o kl[i].d \o CR])
      m2 == IF words = "" THEN m1 ELSE AddLine(m1, words \o CR)
      intl == IF net /\ (m2.orig[1] # m2.dest[1] \/ cfg.f.FORCEINTL)
              THEN <<SOH \o "INTL " \o Print3(m2.dest) \o " " \o Print3(m2.orig) \o CR>> ELSE << >>
      fmpt == IF net /\ m2.orig[4] # 0 THEN <<SOH \o "FMPT " \o N(m2.orig[4]) \o CR>> ELSE << >>
      topt == IF net /\ m2.dest[4] # 0 THEN <<SOH \o "TOPT " \o N(m2.dest[4]) \o CR>> ELSE << >>
      tid == IF cfg.f.ADDTID /\ ~rescan THEN <<SOH \o "TID: " \o PRODUCT \o CR>> ELSE << >>
      rsc == IF rescan THEN <<SOH \o "RESCANNED " \o PrintFull(aka) \o CR>> ELSE << >>
      m3 == AddLines(m2, intl \o fmpt \o topt \o tid \o rsc)
      tl == SplitLines(rec.text, 1)
      og == FoldLeft(LAMBDA acc, l : IF Starts(l, " * Origin: ") /\ Len(l) > 11 /\ Origin(l).ok THEN Origin(l).a ELSE acc, m3.origin, tl)
  IN [m3 EXCEPT !.text = @ \o tl, !.origin = IF net THEN @ ELSE og, !.resc = rescan, !.exported = ~rescan]

(* ------------------------------- linking -------------------------------- *)
JamId(rec, id) == LET i == First(rec.fl, LAMBDA x : x.id = id) IN IF i = 0 THEN "" ELSE rec.fl[i].d
\* m answers o
Answers(m, o, quick) == ~m.del /\ ~o.del /\ JamId(m, 5) # "" /\ (IF quick THEN EqI(JamId(m, 5), JamId(o, 4)) ELSE JamId(m, 5) = JamId(o, 4))
\* every message, and every message that had been waiting for it, is linked to
\* the first message it answers; links once made are kept
Link1(ms, c, quick) ==
  LET d == First(ms, LAMBDA o : Answers(ms[c], o, quick))
      x == IF ms[c].rto = 0 /\ d # 0 THEN [ms EXCEPT ![c].rto = ms[d].num] ELSE ms
  IN [i \in 1..Len(x) |-> IF x[i].rto = 0 /\ Answers(x[i], x[c], quick) THEN [x[i] EXCEPT !.rto = x[c].num] ELSE x[i]]
JamLink(ms, old, quick) ==
  FoldLeft(LAMBDA acc, c : IF acc[c].num > old THEN Link1(acc, c, quick) ELSE acc, ms, [i \in 1..Len(ms) |-> i])
=============================================================================
