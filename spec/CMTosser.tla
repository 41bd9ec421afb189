------------------------------ MODULE CMTosser -----------------------------
(* The tosser: what happens to one message.                                  *)
EXTENDS CMFilter

(* ------------------------ the message handler --------------------------- *)
RECURSIVE Handle(_, _), HandleEcho(_, _), HandleNet(_, _), RouteNet(_, _), Bounce(_, _, _, _),
          Filter(_, _), AreaFix(_, _)

Handle(st, mm) == IF mm.area = "" THEN HandleNet(st, mm) ELSE HandleEcho(st, mm)

(* ------------------------------ echomail -------------------------------- *)
\* links that get the message, in configuration order
Eligible(st, area, mm, seen) ==
  SelectSeq(area.nodes, LAMBDA l : LET n == st.cfg.nodes[l.i] IN
     /\ ~Same4(mm.porig, n.a) /\ ~n.f.PASSIVE /\ ~l.wo
     /\ ~(st.cfg.f.CHECKSEENBY /\ ~area.f.IGNORESEENBY /\ n.a[4] = 0
          /\ n.a[1] = st.cfg.akas[area.aka].a[1] /\ <<n.a[2], n.a[3]>> \in seen))

\* names with a meaning of their own in the configuration file
Reserved(tag) == EqI(tag, "BAD") \/ EqI(tag, "DEFAULT") \/ StartsI(tag, "DEFAULT_")

HandleEcho(st, mmx) ==
  LET mm0 == EndCR(mmx)
      cn == FindNode(st.cfg, mm0.porig)
      ai0 == FindArea(st.cfg, mm0.area)
      s1 == IF ai0 # 0 THEN st
            ELSE AddArea(st, mm0.area, mm0.porig, mm0.pdest, cn # 0 /\ st.cfg.nodes[IF cn = 0 THEN 1 ELSE cn].f.AUTOADD, FALSE)
      ai == IF ai0 # 0 THEN ai0 ELSE Len(s1.cfg.areas)
      area == s1.cfg.areas[ai]
      aka == s1.cfg.akas[area.aka]
      secure == ~mm0.exported /\ ~mm0.nosec
      li == First(area.nodes, LAMBDA l : Same4(s1.cfg.nodes[l.i].a, mm0.porig))
      \* control lines
      mm1 == mm0
      seen == IF aka.a[1] # mm1.porig[1] THEN {} ELSE mm1.sb
      links2d == {<<s1.cfg.nodes[area.nodes[k].i].a[2], s1.cfg.nodes[area.nodes[k].i].a[3]>> :
                   k \in {k \in 1..Len(area.nodes) : LET n == s1.cfg.nodes[area.nodes[k].i] IN
                          n.a[4] = 0 /\ n.a[1] = aka.a[1] /\ ~n.f.PASSIVE /\ ~area.nodes[k].wo}}
      sbA == {e \in seen \cup links2d : \A k \in 1..Len(aka.rem) : ~Match2D(Parse2DPat(aka.rem[k]), e[1], e[2])}
      sbB == sbA \cup {aka.add[k] : k \in 1..Len(aka.add)}
      sbC == IF aka.a[4] = 0 THEN sbB \cup {<<aka.a[2], aka.a[3]>>} ELSE sbB
      path == IF aka.a[4] = 0 \/ s1.cfg.f.PATH3D THEN AddNodePath(mm1.path, aka.a) ELSE mm1.path
      mm2 == [mm1 EXCEPT !.sb = sbC, !.path = path]
      \* duplicates
      dupchk == s1.cfg.dupemode # "IGNORE" /\ mm2.tossed /\ ~area.f.IGNOREDUPES /\ mm2.msgid # ""
      key == <<mm2.msgid, mm2.area>>
      isdup == dupchk /\ SeqHas(s1.dupes, key)
      s2 == IF dupchk /\ ~isdup
            THEN [s1 EXCEPT !.dupes = LET d == Append(@, key) IN IF Len(d) > s1.cfg.dupesize THEN Tail(d) ELSE d]
            ELSE s1
      f == Filter(s2, mm2)
      s3 == AddText(f.st, ai)
      mm3 == f.mm
      el == IF mm3.resc THEN << >> ELSE Eligible(s3, area, mm3, seen)
      w == FoldLeft(LAMBDA acc, l : WriteEcho(acc.st, acc.mm, l.i, aka), R(s3, mm3), el)
      mm4 == [w.mm EXCEPT !.subj = IF w.st.cfg.f.STRIPRE THEN StripRe(@) ELSE @,
                          !.attr = ClrBit(SetBit(@, SENT), ALOCAL)]
  IN IF ai0 = 0 /\ Reserved(mm0.area) THEN R(WriteBad(st, mm0, "Node does not receive this area"), mm0)
     ELSE IF area.type \in {"NETMAIL", "DEFAULT"} THEN R(WriteBad(s1, mm0, "Node does not receive this area"), mm0)
     ELSE IF area.f.UNCONFIRMED THEN R(WriteBad(s1, mm0, "Unknown area (auto-added but not confirmed)"), mm0)
     ELSE IF secure /\ li = 0 THEN R(WriteBad(s1, mm0, "Node does not receive this area"), mm0)
     ELSE IF secure /\ area.nodes[li].ro THEN R(WriteBad(s1, mm0, "Node is not allowed to write in this area"), mm0)
     ELSE IF isdup THEN
          LET sd == [s2 EXCEPT !.ad[ai] = @ + 1, !.ns = IF cn # 0 THEN [@ EXCEPT ![cn].dupes = @ + 1] ELSE @]
          IN R(IF sd.cfg.dupemode = "BAD" THEN WriteBad(sd, mm2, "Duplicate message") ELSE sd, mm2)
     ELSE IF mm3.kill THEN R(f.st, mm3)
     ELSE IF mm3.twit \/ mm3.exported \/ area.base = "" THEN w
     ELSE R(StoreMsg(w.st, ai, mm4), mm4)

(* ------------------------------- netmail -------------------------------- *)
Bounce(st, mm, reason, headeronly) ==
  LET to == IF mm.area = "" THEN mm.orig ELSE mm.origin
      ri == FindRoute(st, to)
  IN IF mm.autogen \/ ri = 0 THEN st
     ELSE Handle(st, BounceMsg(st, mm, reason, headeronly, to, st.cfg.akas[st.cfg.routes[ri].aka].a)).st

Receipt(st, mm) ==
  LET ri == FindRoute(st, mm.orig)
      m0 == AutoMsg(st, mm.orig, st.cfg.akas[st.cfg.routes[ri].aka].a, mm.from, st.cfg.sysop, "Receipt", PVT + IRRR)
      m1 == AddLine(m0, "Your message to " \o mm.to \o " dated " \o mm.date \o " with the subject \"" \o mm.subj
               \o "\" has reached its final destination. This message doesn't mean that the message has been read, it "
               \o "just tells you that it has arrived at this system." \o CR \o CR)
  IN IF ri = 0 THEN st ELSE Handle(st, m1).st

Audit(st, mm) ==
  LET ri == FindRoute(st, mm.orig)
      di == FindRoute(st, mm.dest)
      n == ExpandPat(ParseDestPat(st.cfg.routes[di].dest), mm.dest, st.nl)
      m0 == AutoMsg(st, mm.orig, st.cfg.akas[st.cfg.routes[ri].aka].a, mm.from, st.cfg.sysop, "Audit", PVT)
      m1 == AddLine(m0, "Your message to " \o mm.to \o " dated " \o mm.date \o " with the subject \"" \o mm.subj
               \o "\" has just been routed to " \o PrintFull(n) \o " by this system." \o CR \o CR)
  IN IF ri = 0 THEN st ELSE Handle(st, m1).st

NetArea(cfg, dest) == First(cfg.areas, LAMBDA x : x.type = "NETMAIL" /\
     (Same4(cfg.akas[x.aka].a, dest) \/ \E i \in 1..Len(x.imports) : Same4(x.imports[i], dest)))
FirstNetArea(cfg) == First(cfg.areas, LAMBDA x : x.type = "NETMAIL")

LoopCopy(mm) == [mm EXCEPT !.sb = {}, !.path = << >>,
   !.text = LET idx == SelectSeq([i \in 1..Len(mm.text) |-> i], LAMBDA i : LineStart(mm.text, i) /\ Starts(mm.text[i], SOH))
            IN [k \in 1..Len(idx) |-> "@" \o From(mm.text[idx[k]], 2)]]

HandleNet(st, mm0) ==
  LET mm1 == EndCR([mm0 EXCEPT !.dest[1] = IF @ = 0 THEN mm0.pdest[1] ELSE @,
                               !.orig[1] = IF @ = 0 THEN mm0.porig[1] ELSE @])
      f == Filter(st, mm1)
      mm2 == f.mm
      ka == FindAka(f.st.cfg, mm2.dest)
      isaf == ka # 0 /\ ~mm2.autogen /\ \E i \in 1..Len(f.st.cfg.afnames) : EqI(f.st.cfg.afnames[i], mm2.to)
      s1 == IF isaf THEN AreaFix(f.st, mm2) ELSE f.st
      ai0 == NetArea(s1.cfg, mm2.dest)
      ai == IF ai0 # 0 THEN ai0 ELSE IF ka # 0 \/ s1.cfg.f.NOROUTE THEN FirstNetArea(s1.cfg) ELSE 0
      mm3 == [mm2 EXCEPT !.subj = IF s1.cfg.f.STRIPRE THEN StripRe(@) ELSE @]
      keep == s1.cfg.f.IMPORTEMPTYNETMAIL \/ HasText(mm3.text)
      tobase == keep /\ s1.cfg.areas[ai].base # ""
      mm4 == IF tobase THEN [mm3 EXCEPT !.attr = ClrBit(SetBit(@, SENT), ALOCAL)] ELSE mm3
      s2 == IF keep THEN AddText(IF tobase THEN StoreMsg(s1, ai, mm4) ELSE s1, ai) ELSE s1
      s3 == IF Bit(mm4.attr, RREQ) /\ s2.cfg.f.ANSWERRECEIPT THEN Receipt(s2, mm4) ELSE s2
  IN IF mm2.kill THEN f
     ELSE IF isaf /\ ~s1.cfg.f.IMPORTAREAFIX THEN R(s1, mm2)
     ELSE IF ai # 0 THEN (IF mm2.twit THEN R(s1, mm2) ELSE R(s3, mm4))
     ELSE RouteNet(s1, mm2)

RouteNet(st, mm0) ==
  LET a1 == NetAttrMask(mm0.attr)
      a2 == IF mm0.tossed THEN ClrBit(ClrBit(a1, CRASH), HOLD) ELSE a1
      t0 == IF Bit(a2, HOLD) THEN "HOLD" ELSE IF Bit(a2, CRASH) THEN "CRASH" ELSE "NORMAL"
      t1 == IF Bit(a2, FATTACH) /\ ~st.cfg.f.NODIRECTATTACH /\ t0 = "NORMAL" THEN "DIRECT" ELSE t0
      mm1 == [mm0 EXCEPT !.attr = a2]
      ri == FindRoute(st, mm1.dest)
      route == st.cfg.routes[ri]
      aka == st.cfg.akas[route.aka]
      d0 == IF t1 = "NORMAL" THEN ExpandPat(ParseDestPat(route.dest), mm1.dest, st.nl) ELSE mm1.dest
      type == ChangeType(st, d0, t1)
      d1 == IF d0[4] # 0 /\ type \in {"DIRECT", "CRASH"} THEN [d0 EXCEPT ![4] = 0] ELSE d0
      loop == st.cfg.loopmode # "IGNORE" /\ ~mm1.exported /\ IsLoop(st.cfg, mm1)
      s1 == IF loop /\ st.cfg.loopmode = "LOGBAD" THEN WriteBad(st, LoopCopy(mm1), "Possible loopmail") ELSE st
      nobounce == st.nl.type = "" \/ ~\E i \in 1..Len(st.cfg.bounce) : MatchPat(ParsePat(st.cfg.bounce[i]), mm1.dest, st.nl)
      innl == NlFind(st.nl, mm1.dest) # 0
      boss == [mm1.dest EXCEPT ![4] = 0]
      mypoint == \E i \in 1..Len(st.cfg.akas) : Same4(st.cfg.akas[i].a, boss) /\ st.cfg.akas[i].a[4] = 0
      ho == st.cfg.f.BOUNCEHEADERONLY
      fa == Bit(a2, FATTACH)
      faok == mm1.exported \/ \E i \in 1..Len(st.cfg.fattach) : MatchPat(ParsePat(st.cfg.fattach[i]), mm1.dest, st.nl)
      \* attached files
      names == Tokens(Join([i \in 1..Len(mm1.subj) |-> LET c == SubSeq(mm1.subj, i, i) IN
                       IF c = "," THEN " " ELSE IF c = "\\" THEN "/" ELSE c]), {" ", TAB})
      mm2 == IF fa THEN [mm1 EXCEPT !.subj = JoinSep([i \in 1..Len(names) |-> FilePart(names[i])], " ")] ELSE mm1
      s2 == IF fa THEN FoldLeft(LAMBDA s, n : QueueFile(s, d1, type, n, mm1.exported), s1, names) ELSE s1
      mm3 == AddLine(mm2, SOH \o "Via " \o Print4(aka.a) \o " " \o NOWVIA \o " " \o PROD \o CR)
      s3 == WriteNet(s2, mm3, type, d1, aka)
      s4 == IF Bit(a2, AUDIT) /\ s3.cfg.f.ANSWERAUDIT /\ mm3.tossed THEN Audit(s3, mm3) ELSE s3
  IN IF ri = 0 THEN R(WriteBad(st, mm1, "No routing for destination node"), mm1)
     ELSE IF ~nobounce /\ ~innl THEN
        R(Bounce(s1, mm1, "Warning! Your message has been bounced because the node " \o Print3(mm1.dest)
                          \o " doesn't exist in the nodelist.", ho), mm1)
     ELSE IF st.cfg.f.BOUNCEPOINTS /\ mypoint /\ FindNode(st.cfg, mm1.dest) = 0 THEN
        R(Bounce(s1, mm1, "Warning! Your message has been bounced because the point " \o PrintFull(mm1.dest)
                          \o " doesn't exist.", ho), mm1)
     ELSE IF fa /\ ~faok THEN
        R(Bounce(s1, mm1, "Warning! Your message has been bounced because because routing of file-attaches to "
                          \o PrintFull(mm1.dest) \o " is not allowed.", ho), mm1)
     ELSE R(s4, mm3)

(* ---------------------- filters and AreaFix ----------------------------- *)
Filter(st, mm) == Filters(Bounce, st, mm)
AreaFix(st, mm) == AreaFixReq(Handle, st, mm)

(* ------------------------------- a run ---------------------------------- *)
\* start of a run: recompute the highest message number of every base
HighOf(b) == FoldLeft(LAMBDA a, m : IF m.num > a THEN m.num ELSE a, 1, b.msgs)
BeginRun(st) == [st EXCEPT !.out = << >>, !.log = << >>, !.files = << >>, !.changed = FALSE, !.touch = {}, !.order = [i \in 1..Len(st.cfg.areas) |-> st.cfg.areas[i].tag],
                   !.an = [i \in 1..Len(@) |-> 0], !.ad = [i \in 1..Len(@) |-> 0],
                   !.bases = [i \in 1..Len(@) |-> LET h == IF st.cfg.areas[i].base = "JAM" THEN @[i].high ELSE HighOf(@[i])
                                                  IN [@[i] EXCEPT !.high = h, !.old = h]]]
=============================================================================
