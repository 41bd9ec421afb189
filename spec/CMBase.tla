------------------------------- MODULE CMBase ------------------------------
(* The state of the system and the elementary actions on it.  A run of the   *)
(* program is a fold of Handle (CMTosser) over the messages it reads.  The model state st is a record:   *)
(*   cfg    configuration (akas, nodes, areas, routes, ... flags)           *)
(*   bases  message bases, parallel to cfg.areas                            *)
(*   out    outgoing packets of this run, in order of creation              *)
(*   files  files queued for other systems by this run (attachments)        *)
(*   dupes  duplicate history, oldest first                                 *)
(*   an, ad new messages / duplicates per area (parallel to cfg.areas)      *)
(*   ns     statistics per node (parallel to cfg.nodes)                     *)
(*   nl     nodelist view                                                   *)
(*   graves message bases of removed areas, by path                         *)
(*   order  tags of the areas at the start of the run                       *)
(*   touch  areas and nodes whose configuration was changed by the run       *)
EXTENDS CMJam

NOWDATE == "@DATETIME@@@@@@@@@@"
NOWVIA  == "@YYYYMMDD.HHMMSS"
PROD    == PRODUCT
TIDLINE == SOH \o "TID: " \o PROD \o CR

FindNode(cfg, a) == First(cfg.nodes, LAMBDA n : Same4(a, n.a))
FindArea(cfg, tag) == First(cfg.areas, LAMBDA x : EqI(x.tag, tag))
FindAka(cfg, a) == First(cfg.akas, LAMBDA k : Same4(a, k.a))
FindRoute(st, a) == First(st.cfg.routes, LAMBDA r : MatchPat(ParsePat(r.pat), a, st.nl))
BadArea(cfg) == First(cfg.areas, LAMBDA x : x.type = "BAD")
MatchGroup(g, list) == g # "" /\ HasChar(list, g)

NodeStat0 == [gotn |-> 0, gotnb |-> 0, sentn |-> 0, sentnb |-> 0, gote |-> 0, goteb |-> 0,
              sente |-> 0, senteb |-> 0, dupes |-> 0]

AreaStat0 == [total |-> 0, days |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, dupes |-> 0, first |-> 0, last |-> 0]

(* --------------------------- message bases ------------------------------ *)
\* Control information that accompanies a stored echomail message
StoredSB(st, mm) == IF st.cfg.f.IMPORTSEENBY /\ mm.area # "" THEN SBLines(mm.sb) ELSE << >>
MsgRec(st, num, mm) ==
  [num |-> num, from |-> mm.from, to |-> mm.to, subj |-> mm.subj, date |-> mm.date,
   attr |-> mm.attr, cost |-> mm.cost, rto |-> 0, nr |-> 0, keep |-> "0",
   orig |-> IF mm.area = "" THEN mm.orig ELSE Null4,
   dest |-> IF mm.area = "" THEN mm.dest ELSE Null4,
   body |-> Body(mm), sbl |-> StoredSB(st, mm), pathl |-> PathLines(mm.path)]
StoreMsg(st, ai, mm) ==
  LET b == st.bases[ai]
      num == b.high + 1
      rec == IF st.cfg.areas[ai].base = "JAM" THEN JamRec(num, mm, StoredSB(st, mm)) ELSE MsgRec(st, num, mm)
  IN [st EXCEPT !.bases[ai] = [b EXCEPT !.high = num, !.msgs = Append(@, rec)]]

AddText(st, ai) == [st EXCEPT !.an[ai] = @ + 1]

WriteBad(st, mm, reason) ==
  LET bi == BadArea(st.cfg)
      head == IF mm.area = ""
              THEN <<"DEST:" \o PrintFull(mm.dest) \o CR, "ORIG:" \o PrintFull(mm.orig) \o CR>>
              ELSE <<"AREA:" \o mm.area \o CR>>
      all == head \o <<"PKTORIG:" \o PrintFull(mm.porig) \o CR, "PKTDEST:" \o PrintFull(mm.pdest) \o CR,
                       "ERROR:" \o reason \o CR>>
      m2 == [mm EXCEPT !.text = all \o @]
  IN IF bi = 0 THEN st
     ELSE AddText(IF st.cfg.areas[bi].base # "" THEN StoreMsg(st, bi, m2) ELSE st, bi)

(* --------------------------- outgoing packets --------------------------- *)
OutMsg(mm, area, sbl, pathl) ==
  [o2 |-> <<mm.orig[2], mm.orig[3]>>, d2 |-> <<mm.dest[2], mm.dest[3]>>, attr |-> mm.attr, cost |-> mm.cost,
   date |-> mm.date, to |-> mm.to, from |-> mm.from, subj |-> mm.subj,
   area |-> area, body |-> Body(mm), sbl |-> sbl, pathl |-> pathl]
LinesLen(ss) == FoldLeft(LAMBDA a, s : a + Len(s), 0, ss)
OutLen(m) == 14 + Len(m.date) + Len(m.to) + Len(m.from) + Len(m.subj) + 4
             + (IF m.area # "" THEN 6 + Len(m.area) ELSE 0) + Len(m.body) + LinesLen(m.sbl) + LinesLen(m.pathl) + 1

\* ni: index of the configured node (0 if none), only for the password
PutPkt(st, dest, orig, type, ni, om) ==
  LET i == First(st.out, LAMBDA p : p.open /\ Same4(dest, p.dest) /\ Same4(orig, p.orig) /\ p.type = type)
      full == i # 0 /\ st.cfg.maxpkt # 0 /\ st.out[i].len > st.cfg.maxpkt * 1024
      st1 == IF full THEN [st EXCEPT !.out[i].open = FALSE] ELSE st
      pw == IF ni # 0 /\ (type = "ECHOMAIL" \/ ~st.cfg.nodes[ni].f.NONETMAILPASSWORD) THEN st.cfg.nodes[ni].pw ELSE ""
      new == [dest |-> dest, orig |-> orig, type |-> type, pw |-> pw, open |-> TRUE, len |-> 58, msgs |-> << >>]
      st2 == IF i = 0 \/ full THEN [st1 EXCEPT !.out = Append(@, new)] ELSE st1
      j == IF i = 0 \/ full THEN Len(st2.out) ELSE i
  IN [st2 EXCEPT !.out[j].msgs = Append(@, om), !.out[j].len = @ + OutLen(om)]

\* returns [st, mm]
WriteEcho(st, mm, ni, aka) ==
  LET node == st.cfg.nodes[ni]
      from == IF node.pktfrom # Null4 THEN node.pktfrom ELSE aka.a
      m2 == [mm EXCEPT !.dest = node.a, !.orig = from]
      tiny == node.a[1] # aka.a[1] \/ node.f.TINYSEENBY
      tset == (IF node.a[4] = 0 THEN {<<node.a[2], node.a[3]>>} ELSE {})
              \cup (IF aka.a[4] = 0 THEN {<<aka.a[2], aka.a[3]>>} ELSE {})
      sbl == IF tiny THEN SBLines(tset) ELSE IF node.f.NOSEENBY THEN << >> ELSE SBLines(mm.sb)
      om == OutMsg(m2, mm.area, sbl, PathLines(mm.path))
      st1 == [st EXCEPT !.ns[ni].sente = @ + 1, !.ns[ni].senteb = @ + BodyLen(mm)]
  IN [st |-> PutPkt(st1, node.a, from, "ECHOMAIL", ni, om), mm |-> m2]

WriteNet(st, mm, type, dest, aka) ==
  LET ni == FindNode(st.cfg, dest)
      st1 == IF ni = 0 THEN st ELSE [st EXCEPT !.ns[ni].sentn = @ + 1, !.ns[ni].sentnb = @ + BodyLen(mm)]
      t == IF ni # 0 /\ st.cfg.nodes[ni].f.PACKNETMAIL /\ type = "NORMAL" THEN "ECHOMAIL" ELSE type
      from == IF ni # 0 /\ st.cfg.nodes[ni].pktfrom # Null4 THEN st.cfg.nodes[ni].pktfrom ELSE aka.a
  IN PutPkt(st1, dest, from, t, ni, OutMsg(mm, "", << >>, << >>))

\* .msg bases are numbered from 2, JAM bases from 1; old: the last message at the start of the run
NewBase(kind) == [high |-> IF kind = "JAM" THEN 0 ELSE 1, old |-> 0, msgs |-> << >>, hw |-> 0]
(* ------------------------------ auto-add -------------------------------- *)
Forbidden == {"\"", "#", "'", "`", "(", ")", "*", ",", ".", "/", ":", ";", "<", ">", "|"}
SafeName(s) == Join([i \in 1..Len(s) |-> LET c == SubSeq(s, i, i) IN
                  IF c \in Forbidden \/ Code[c] < 33 \/ Code[c] > 126 THEN "_" ELSE c])
RECURSIVE MakeDirR(_, _, _)
MakeDirR(def, i, name) ==
  IF i > Len(def) THEN ""
  ELSE IF At(def, i) = "%" /\ At(def, i + 1) \in {"a", "A"} THEN name \o MakeDirR(def, i + 2, name)
  ELSE IF At(def, i) = "%" /\ At(def, i + 1) \in {"l", "L"} THEN Low(name) \o MakeDirR(def, i + 2, name)
  ELSE IF At(def, i) = "%" /\ At(def, i + 1) = "8" THEN "%8" \o MakeDirR(def, i + 2, name)
  ELSE At(def, i) \o MakeDirR(def, i + 1, name)
MakeDir(def, name) == Take(MakeDirR(def, 1, name), 79)
\* no two areas share a path
RECURSIVE FreePath(_, _, _)
FreePath(cfg, p, n) ==
  LET suf == IF n = 0 THEN "" ELSE "_" \o N(n)
      q == Take(p, 79 - Len(suf)) \o suf
  IN IF \E i \in 1..Len(cfg.areas) : LET a == cfg.areas[i] IN a.type # "DEFAULT" /\ a.base # "" /\ EqI(a.path, q)
     THEN FreePath(cfg, p, n + 1) ELSE q

AreaFlags0 == [UNCONFIRMED |-> FALSE, MANDATORY |-> FALSE, DEFREADONLY |-> FALSE,
               IGNOREDUPES |-> FALSE, IGNORESEENBY |-> FALSE]
\* add a link unless already there
AddLink(nodes, i, ro, wo, feed) ==
  IF \E k \in 1..Len(nodes) : nodes[k].i = i THEN nodes
  ELSE Append(nodes, [i |-> i, ro |-> ro, wo |-> wo, feed |-> feed])

DefaultFor(cfg, ni) ==
  LET g == IF ni = 0 THEN "" ELSE cfg.nodes[ni].defgroup
      d1 == IF g = "" THEN 0
            ELSE First(cfg.areas, LAMBDA x : StartsI(x.tag, "DEFAULT_") /\ HasChar(From(x.tag, 9), g))
  IN IF d1 # 0 THEN d1 ELSE First(cfg.areas, LAMBDA x : EqI(x.tag, "DEFAULT"))

DescFor(cfg, name, ni, dflt) ==
  LET lists == SelectSeq(cfg.arealists, LAMBDA l : l.node = ni /\ l.DESC)
      hits == FlattenSeq([k \in 1..Len(lists) |-> SelectSeq(lists[k].lines, LAMBDA e : EqI(e.tag, name) /\ e.desc # "")])
  IN IF ni = 0 \/ hits = << >> THEN dflt ELSE Take(hits[1].desc, 77)

AddArea(st, name, node, mynode, active, passthru) ==
  LET cfg == st.cfg
      ka0 == FindAka(cfg, mynode)
      ka == IF ka0 = 0 THEN 1 ELSE ka0
      ni == FindNode(cfg, node)
      di == DefaultFor(cfg, ni)
      d == cfg.areas[di]
      fl0 == IF di = 0 THEN AreaFlags0
             ELSE [UNCONFIRMED |-> FALSE, MANDATORY |-> d.f.MANDATORY, DEFREADONLY |-> d.f.DEFREADONLY,
                   IGNOREDUPES |-> d.f.IGNOREDUPES, IGNORESEENBY |-> d.f.IGNORESEENBY]
      fl == IF active THEN fl0 ELSE [AreaFlags0 EXCEPT !.UNCONFIRMED = TRUE]
      ln0 == IF di = 0 THEN << >> ELSE d.nodes
      grp == IF ni = 0 THEN "" ELSE cfg.nodes[ni].defgroup
      ln1 == IF ni = 0 THEN ln0 ELSE AddLink(ln0, ni, FALSE, FALSE, TRUE)
      ln2 == IF ni = 0 THEN ln1
             ELSE FoldLeft(LAMBDA acc, k : IF MatchGroup(grp, cfg.nodes[k].addgroups)
                                           THEN AddLink(acc, k, fl.DEFREADONLY \/ MatchGroup(grp, cfg.nodes[k].rogroups), FALSE, FALSE)
                                           ELSE acc,
                           ln1, [k \in 1..Len(cfg.nodes) |-> k])
      new == [tag |-> name, desc |-> DescFor(cfg, name, ni, IF di = 0 THEN "" ELSE d.desc),
              type |-> "ECHOMAIL", aka |-> ka,
              base |-> IF di = 0 \/ passthru THEN "" ELSE d.base,
              path |-> IF di = 0 \/ passthru \/ d.base = "" THEN "" ELSE FreePath(cfg, MakeDir(d.path, SafeName(name)), 0),
              group |-> grp, f |-> fl, nodes |-> ln2, imports |-> << >>, banned |-> << >>,
              keepnum |-> IF di = 0 THEN 0 ELSE d.keepnum, keepdays |-> IF di = 0 THEN 0 ELSE d.keepdays]
  IN [st EXCEPT !.cfg.areas = Append(@, new), !.an = Append(@, 0), !.ad = Append(@, 0), !.stats.areas = Append(@, AreaStat0),
                !.bases = Append(@, LET g == First(st.graves, LAMBDA x : EqI(x.path, new.path)) IN
                                    IF new.base # "" /\ g # 0 THEN st.graves[g].b ELSE NewBase(new.base)), !.changed = TRUE]

(* ------------------------------ helpers --------------------------------- *)
RECURSIVE StripRe(_)
StripRe(s) ==
  LET sp(r) == IF At(r, 1) = " " THEN From(r, 2) ELSE r IN
  IF StartsI(s, "Re:") THEN StripRe(sp(From(s, 4)))
  ELSE IF StartsI(s, "Re^") /\ At(s, 5) = ":" THEN StripRe(sp(From(s, 6)))
  ELSE IF StartsI(s, "Re[") /\ At(s, 5) = "]" /\ At(s, 6) = ":" THEN StripRe(sp(From(s, 7)))
  ELSE s

\* fragment i of the text begins a line
LineStart(text, i) == i = 1 \/ Ends(text[i - 1], CR)
HasText(text) == \E i \in 1..Len(text) : (LineStart(text, i) /\ ~Starts(text[i], SOH)) \/ Ends(text[i], CR \o LF)

AddrChars == Digits \cup {":", "/", "."}
\* maximal runs of address characters, each cut to 19
RECURSIVE Runs(_, _)
Runs(s, i) == LET b == Scan(s, i, AddrChars)  e == Skip(s, b, AddrChars)
              IN IF b > Len(s) THEN {} ELSE {Take(Sub(s, b, e - 1), 19)} \cup Runs(s, e)
IsOwnAddr(cfg, s) == LET r == Parse4(s) IN
  HasChar(s, ":") /\ HasChar(s, "/") /\ r.ok /\ r.a[1] # 0 /\ r.a[2] # 0 /\ FindAka(cfg, r.a) # 0
IsLoop(cfg, mm) == \E i \in 1..Len(mm.text) :
  /\ LineStart(mm.text, i) /\ Starts(mm.text[i], SOH \o "Via")
  /\ LET v == Take(mm.text[i], 150) IN HasSub(v, "CrashMail") /\ \E r \in Runs(v, 1) : IsOwnAddr(cfg, r)

TypeBit(pri) == IF pri = "ECHOMAIL" THEN "NORMAL" ELSE pri
ChangeType(st, dest, pri) ==
  FoldLeft(LAMBDA acc, c : IF MatchPat(ParsePat(c.pat), dest, st.nl) /\ SeqHas(c.types, TypeBit(pri))
                           THEN (IF pri = "ECHOMAIL" /\ c.pri = "NORMAL" THEN pri ELSE c.pri) ELSE acc,
           pri, st.cfg.changes)

Kludges(cfg, mm) ==
  LET a == IF mm.orig[4] # 0 THEN <<SOH \o "FMPT " \o N(mm.orig[4]) \o CR>> ELSE << >>
      b == IF mm.dest[4] # 0 THEN <<SOH \o "TOPT " \o N(mm.dest[4]) \o CR>> ELSE << >>
      c == IF mm.orig[1] # mm.dest[1] \/ cfg.f.FORCEINTL
           THEN <<SOH \o "INTL " \o Print3(mm.dest) \o " " \o Print3(mm.orig) \o CR>> ELSE << >>
  IN [mm EXCEPT !.text = @ \o a \o b \o c]
TID(cfg, mm) == IF cfg.f.ADDTID THEN AddLine(mm, TIDLINE) ELSE mm

\* an automatically generated netmail
AutoMsg(st, dest, aka, to, from, subj, attr) ==
  TID(st.cfg, Kludges(st.cfg, [NewMM EXCEPT !.dest = dest, !.orig = aka, !.to = to, !.from = from,
        !.subj = subj, !.attr = attr, !.date = NOWDATE, !.autogen = TRUE]))

AtSOH(s) == IF ~HasChar(s, SOH) THEN s
            ELSE Join([i \in 1..Len(s) |-> IF SubSeq(s, i, i) = SOH THEN "@" ELSE SubSeq(s, i, i)])
BounceMsg(st, mm, reason, headeronly, to, aka) ==
  LET m0 == AutoMsg(st, to, aka, mm.from, st.cfg.sysop, "Bounced message", PVT)
      l1 == <<Take(reason, 390) \o CR \o CR,
              (IF headeronly THEN "This is the header of the message that was bounced:"
               ELSE "This is the message that was bounced:") \o CR \o CR>>
      l2 == IF mm.area # ""
            THEN <<"Area: " \o Take(mm.area, 80) \o CR,
                   "From: " \o Take(mm.from, 40) \o " (" \o PrintFull(to) \o ")" \o CR,
                   "  To: " \o Take(mm.to, 40) \o CR>>
            ELSE <<"From: " \o Take(mm.from, 40) \o " (" \o PrintFull(to) \o ")" \o CR,
                   "  To: " \o Take(mm.to, 40) \o " (" \o PrintFull(mm.dest) \o ")" \o CR>>
      l3 == <<"Subj: " \o mm.subj \o CR, "Date: " \o mm.date \o CR \o CR>>
      m1 == AddLines(m0, l1 \o l2 \o l3)
  IN IF headeronly THEN m1
     ELSE [m1 EXCEPT !.text = @ \o [i \in 1..Len(mm.text) |-> AtSOH(mm.text[i])]]

FilePart(s) == LET P == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"}
               IN IF P = {} THEN s ELSE From(s, (CHOOSE i \in P : \A j \in P : j <= i) + 1)

\* Attached files.  A received one is taken from the inbound directory, a
\* local one is copied from disk (st.disk: files by path).
AddFlow(st, dest, type, mode, name, id) ==
  LET e == [dest |-> dest, pri |-> IF type = "ECHOMAIL" THEN "NORMAL" ELSE type, mode |-> mode, name |-> name, id |-> id]
  IN [st EXCEPT !.files = Append(@, e)]
QueueFile(st, dest, type, path, local) ==
  LET base == FilePart(path)
      i == First(st.inb, LAMBDA x : x.name = base)
      j == First(st.disk, LAMBDA x : x.name = path)
  IN IF local
     THEN IF j # 0 THEN AddFlow(st, dest, type, "^", "pk/" \o base, st.disk[j].id)
          ELSE AddFlow(st, dest, type, "", path, "")
     ELSE IF i # 0 THEN AddFlow([st EXCEPT !.inb = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], dest, type, "^", "pk/" \o base, st.inb[i].id)
     ELSE AddFlow(st, dest, type, "^", "in/" \o base, "")

NetAttrMask(a) == (IF Bit(a, PVT) THEN PVT ELSE 0) + (IF Bit(a, CRASH) THEN CRASH ELSE 0)
   + (IF Bit(a, FATTACH) THEN FATTACH ELSE 0) + (IF Bit(a, HOLD) THEN HOLD ELSE 0) + (IF Bit(a, RREQ) THEN RREQ ELSE 0)
   + (IF Bit(a, IRRR) THEN IRRR ELSE 0) + (IF Bit(a, AUDIT) THEN AUDIT ELSE 0)

R(st, mm) == [st |-> st, mm |-> mm]
=============================================================================
