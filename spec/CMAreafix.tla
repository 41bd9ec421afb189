----------------------------- MODULE CMAreafix -----------------------------
(* AreaFix: requests by netmail and the notifications and removals ordered   *)
(* from the command line; and rescans.  Everything that sends a message is   *)
(* given the message handler H(st, mm) as parameter (CMTosser supplies it).  *)
EXTENDS CMBase

(* ------------------------------- rescan --------------------------------- *)
\* the lines of a stored message as they are read back
StoredLines(rec) == CutLines(SplitLines(rec.body, 1) \o rec.sbl \o rec.pathl)
ExportMask(a) == NetAttrMask(a) + (IF Bit(a, FREQ) THEN FREQ ELSE 0)
\* ins: lines inserted before the first line that is no control line
ReadBack(m0, lines, ins) ==
  LET i == First(lines, LAMBDA l : ~Starts(l, SOH) /\ ~Starts(l, LF))
      k == IF i = 0 THEN Len(lines) + 1 ELSE i
  IN AddLines(AddLines(AddLines(m0, SubSeq(lines, 1, k - 1)), ins), SubSeq(lines, k, Len(lines)))
RescanMM(st, ai, rec) ==
  LET a == st.cfg.areas[ai]
      m0 == [NewMM EXCEPT !.area = a.tag, !.to = rec.to, !.from = rec.from, !.subj = rec.subj, !.date = rec.date,
               !.attr = ExportMask(rec.attr), !.cost = rec.cost, !.orig = [rec.orig EXCEPT ![1] = 0, ![4] = 0], !.dest = [rec.dest EXCEPT ![1] = 0, ![4] = 0]]
  IN IF a.base = "JAM" THEN JamExport(st.cfg, a, st.cfg.akas[a.aka].a, rec, TRUE) ELSE
     [ReadBack(m0, StoredLines(rec), <<SOH \o "RESCANNED " \o PrintFull(st.cfg.akas[a.aka].a) \o CR>>) EXCEPT !.resc = TRUE]
RescanOne(st, ai, ni, rec) ==
  LET aka == st.cfg.akas[st.cfg.areas[ai].aka]
      na == st.cfg.nodes[ni].a
      m0 == EndCR(RescanMM(st, ai, rec))
      sb1 == IF aka.a[4] = 0 THEN m0.sb \cup {<<aka.a[2], aka.a[3]>>} ELSE m0.sb
      sb2 == IF na[4] = 0 THEN sb1 \cup {<<na[2], na[3]>>} ELSE sb1
      m1 == [m0 EXCEPT !.sb = sb2, !.path = IF aka.a[4] = 0 \/ st.cfg.f.PATH3D THEN AddNodePath(@, aka.a) ELSE @]
  IN WriteEcho(st, m1, ni, aka).st
\* the last max messages, all of them if max is 0
RescanSet(msgs, max) == IF max = 0 \/ max >= Len(msgs) THEN msgs ELSE SubSeq(msgs, Len(msgs) - max + 1, Len(msgs))
RescanArea(st, ai, ni, max) ==
  LET b == st.bases[ai]
      \* what is in the base when the run begins; deleted messages are not there
      ms == RescanSet(IF st.cfg.areas[ai].base = "JAM" THEN SelectSeq(b.msgs, LAMBDA m : m.num <= b.old /\ ~m.del) ELSE b.msgs, max)
  IN [st |-> FoldLeft(LAMBDA s, m : RescanOne(s, ai, ni, m), st, ms), n |-> Len(ms)]

(* ---------------------------- removing areas ---------------------------- *)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* what was in a message base stays on disk
DropArea(st, i) ==
  LET a == st.cfg.areas[i] IN
  [st EXCEPT !.cfg.areas = Without(@, i), !.bases = Without(@, i), !.an = Without(@, i), !.ad = Without(@, i), !.stats.areas = Without(@, i), !.changed = TRUE, !.touch = @ \cup {Low(a.tag)},
             !.graves = IF a.base = "" THEN @ ELSE Append(SelectSeq(@, LAMBDA g : ~EqI(g.path, a.path)), [path |-> a.path, b |-> st.bases[i]])]
RECURSIVE DropDeleted(_)
DropDeleted(st) == LET i == First(st.cfg.areas, LAMBDA a : a.type = "DELETED") IN IF i = 0 THEN st ELSE DropDeleted(DropArea(st, i))

RemoveMsgs(H(_, _), st, ai) ==
  LET a == st.cfg.areas[ai]
      orig == st.cfg.akas[a.aka].a
      one(s, l) ==
        LET n == s.cfg.nodes[l.i]
            m1 == AddLines(AutoMsg(s, n.a, orig, n.rafname, s.cfg.sysop, n.rafpw, PVT),
                           <<"-" \o a.tag \o CR, "---" \o CR \o "Generated by CrashMail 1.5.1" \o CR>>)
            m2 == AddLines(AutoMsg(s, n.a, orig, n.sysop, s.cfg.sysop, "Area removed", PVT),
                           <<"The area \"" \o a.tag \o "\" has been removed by the uplink." \o CR>>
                           \o (IF n.f.SENDAREAFIX THEN <<"A message has been sent to your AreaFix." \o CR>> ELSE << >>))
            s1 == IF n.f.SENDAREAFIX THEN H(s, m1).st ELSE s
        IN IF n.f.SENDTEXT /\ ~l.feed THEN H(s1, m2).st ELSE s1
  IN FoldLeft(one, st, a.nodes)
\* removed by the operator
RemoveArea(H(_, _), st, tag) ==
  LET i == FindArea(st.cfg, tag)
  IN DropArea(RemoveMsgs(H, st, i), i)

(* ------------------------------- replies -------------------------------- *)
\* a reply being written: x.st and x.af = [mm, subj, lines, part]
AfInit(st, from4, toname, to4, subj) ==
  [mm |-> Kludges(st.cfg, [NewMM EXCEPT !.from = st.cfg.sysop, !.orig = from4, !.to = toname, !.dest = to4, !.attr = PVT,
                             !.date = NOWDATE, !.autogen = TRUE]), subj |-> subj, lines |-> 0, part |-> 1]
AfSend(H(_, _), x) ==
  LET r == H(x.st, [x.af.mm EXCEPT !.subj = IF x.af.part = 1 THEN x.af.subj ELSE x.af.subj \o " (part " \o N(x.af.part) \o ")"])
  IN [x EXCEPT !.st = r.st, !.af.mm = r.mm]
AfLine(H(_, _), x, line) ==
  LET max == x.st.cfg.afmaxlines
      full == max >= 2 /\ x.af.lines >= max - 2
      y == AfSend(H, [x EXCEPT !.af.mm = AddLine(@, CR \o "(Continued in next message)" \o CR)])
      z == [y EXCEPT !.af.mm = AddLine(Kludges(y.st.cfg, [@ EXCEPT !.text = << >>, !.date = NOWDATE, !.autogen = TRUE]),
                                       "(Continued from previous message)" \o CR \o CR),
                     !.af.lines = 2, !.af.part = @ + 1]
      w == IF full THEN z ELSE x
  IN [w EXCEPT !.af.mm = AddLine(@, line \o CR), !.af.lines = @ + 1]
AfLines(H(_, _), x, lines) == FoldLeft(LAMBDA a, l : AfLine(H, a, l), x, lines)
CmdReply(cmd, reply) == IF Len(cmd) <= 30 THEN <<PadR(cmd, 30) \o " " \o reply>> ELSE <<cmd, Blanks(31) \o reply>>
Sub30(s) == Blanks(31) \o s

(* -------------------------- lists, help, info --------------------------- *)
Linked(area, ni) == First(area.nodes, LAMBDA l : l.i = ni)
Access(area, node) == MatchGroup(area.group, node.groups) \/ MatchGroup(area.group, node.rogroups)
GroupName(cfg, g) == LET i == First(cfg.groups, LAMBDA x : x[1] = g) IN IF i = 0 THEN "" ELSE cfg.groups[i][2]

\* -1: unknown
WeekKB(st, ai) ==
  LET s == st.stats.areas[ai]
      diff == st.stats.day - s.first
      days == IF diff > 7 THEN 7 ELSE diff
      sum == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(s.days, 2, days + 1))
  IN IF s.first = 0 \/ st.stats.day = 0 THEN -1
     ELSE IF sum = 0 /\ s.total # 0 THEN s.total \div (IF diff = 0 THEN 1 ELSE diff)
     ELSE sum \div (IF days = 0 THEN 1 ELSE days)

ListEntries(st, ni, type) ==
  LET cfg == st.cfg
      node == cfg.nodes[ni]
      idx == SelectSeq([i \in 1..Len(cfg.areas) |-> i], LAMBDA i : LET a == cfg.areas[i] l == Linked(a, ni) # 0 IN
               a.type = "ECHOMAIL" /\ CASE type = "QUERY" -> l
                                       [] type = "UNLINKED" -> ~l /\ Access(a, node)
                                       [] OTHER -> l \/ Access(a, node))
      local == [k \in 1..Len(idx) |-> LET a == cfg.areas[idx[k]] li == Linked(a, ni) IN
                  [tag |-> a.tag, desc |-> a.desc, group |-> a.group, att |-> li # 0, feed |-> li # 0 /\ a.nodes[IF li = 0 THEN 1 ELSE li].feed, kb |-> WeekKB(st, idx[k])]]
      fwd == IF cfg.f.INCLUDEFORWARD /\ type # "QUERY" /\ node.f.FORWARDREQ
             THEN SelectSeq(cfg.arealists, LAMBDA l : l.FORWARD /\ MatchGroup(l.group, node.groups)) ELSE << >>
      add(acc, e) == IF FindArea(cfg, e.tag) # 0 \/ (\E i \in 1..Len(acc) : EqI(acc[i].tag, e.tag)) THEN acc ELSE Append(acc, e)
      ent(l) == [k \in 1..Len(l.lines) |-> [tag |-> l.lines[k].tag, desc |-> IF l.DESC THEN Take(l.lines[k].desc, 77) ELSE "", group |-> l.group,
                                          att |-> FALSE, feed |-> FALSE, kb |-> -1]]
  IN FoldLeft(LAMBDA acc, l : FoldLeft(add, acc, ent(l)), local, fwd)
GOrd(g) == IF g = "" THEN 0 ELSE Code[g]
EntLess(a, b) == GOrd(a.group) < GOrd(b.group) \/ (a.group = b.group /\ LessI(a.tag, b.tag))

ListText(st, ni, type, from4) ==
  LET es == SortSeq(ListEntries(st, ni, type), EntLess)
      kind == CASE type = "QUERY" -> "connected" [] type = "UNLINKED" -> "unlinked" [] OTHER -> "available"
      ast(e) == IF e.feed THEN "%" ELSE IF type = "FULL" /\ e.att THEN "*" ELSE " "
      kb(e) == IF e.kb = -1 THEN "?" ELSE N(e.kb)
      tail(e) == "  " \o PadR(Take(e.desc, 33), 33) \o "  " \o PadL(Take(kb(e), 8), 8)
      row(e) == IF Len(e.tag) <= 28 THEN <<ast(e) \o PadR(e.tag, 28) \o tail(e)>>
                ELSE <<ast(e) \o PadR(Take(e.tag, 70), 70), " " \o Blanks(28) \o tail(e)>>
      hd(i) == IF i > 1 /\ es[i - 1].group = es[i].group THEN << >>
               ELSE (IF i > 1 THEN <<"">> ELSE << >>)
                    \o <<" Group: " \o (IF es[i].group = "" THEN "<No group>" ELSE GroupName(st.cfg, es[i].group)), "",
                         " Tagname                       Description                         KB/week",
                         " ----------------------------  ---------------------------------   -------">>
      n == Len(es)
      m == Len(SelectSeq(es, LAMBDA e : e.att))
      pc == "A '%' means that you are the feed for the area."
      end == CASE type = "QUERY" -> <<CR \o N(n) \o " linked areas.", pc>>
               [] type = "UNLINKED" -> <<CR \o N(n) \o " unlinked areas.">>
               [] OTHER -> <<CR \o "Totally " \o N(n) \o " areas, you are connected to " \o N(m) \o " of them.",
                             "A '*' means that you are connected to the area.", pc>>
  IN <<"This is a list of all " \o kind \o " areas at " \o PrintFull(from4) \o ":", "">>
     \o FlattenSeq([i \in 1..n |-> hd(i) \o row(es[i])]) \o end

HelpText(cfg) == IF cfg.afhelp = "" THEN <<"*** Error *** : Couldn't open help file">> ELSE cfg.helplines
InfoText(cfg, ni) ==
  LET n == cfg.nodes[ni]
      fl(b, s) == IF b THEN <<s>> ELSE << >>
      letters == [i \in 1..26 |-> SubSeq(UpStr, i, i)]
      full == SelectSeq(letters, LAMBDA c : HasChar(n.groups, c) /\ ~HasChar(n.rogroups, c))
      ro == SelectSeq(letters, LAMBDA c : HasChar(n.rogroups, c))
      gn(c) == GroupName(cfg, c)
  IN <<"Configuration for " \o PrintFull(n.a) \o ":", "", "           Sysop: " \o n.sysop, "Packet  password: " \o n.pw,
       "Areafix password: " \o n.afpw, "          Packer: " \o (IF n.packer = "" THEN "No packer" ELSE n.packer), "">>
     \o fl(n.f.PASSIVE, " * You are passive and will not receive any echomail messages")
     \o fl(n.f.TINYSEENBY, " * You receive messages with tiny SEEN-BY lines")
     \o fl(n.f.NOSEENBY, " * You receive messages without SEEN-BY lines")
     \o fl(n.f.FORWARDREQ, " * You may do forward-requests")
     \o fl(n.f.NOTIFY, " * You will receive notifications")
     \o fl(n.f.PACKNETMAIL, " * Netmail to you will be packed")
     \o fl(n.f.AUTOADD, " * New areas from you will be auto-added")
     \o <<"", "You have full access to these groups:", "">>
     \o [i \in 1..Len(full) |-> full[i] \o (IF gn(full[i]) = "" THEN "" ELSE ": " \o gn(full[i]))]
     \o <<"", "You have read-only access to these groups:", "">>
     \o [i \in 1..Len(ro) |-> ro[i] \o ": " \o gn(ro[i])]

\* type: FULL, QUERY, UNLINKED, HELP, INFO
SendText(H(_, _), st, ni, type, from4, toname) ==
  LET n == st.cfg.nodes[ni]
      subj == CASE type = "HELP" -> "AreaFix help" [] type = "INFO" -> "AreaFix configuration info" [] OTHER -> "AreaFix list of areas"
      text == CASE type = "HELP" -> HelpText(st.cfg) [] type = "INFO" -> InfoText(st.cfg, ni) [] OTHER -> ListText(st, ni, type, from4)
      x == [st |-> st, af |-> AfInit(st, from4, toname, n.a, subj)]
  IN AfSend(H, AfLines(H, x, text)).st
\* ordered by the operator
Notify(H(_, _), st, ni, type) ==
  LET ri == FindRoute(st, st.cfg.nodes[ni].a)
  IN IF ri = 0 THEN st ELSE SendText(H, st, ni, type, st.cfg.akas[st.cfg.routes[ri].aka].a, st.cfg.nodes[ni].sysop)
NotifyAll(H(_, _), st, type) ==
  FoldLeft(LAMBDA s, i : IF s.cfg.nodes[i].f.NOTIFY THEN Notify(H, s, i, type) ELSE s, st, [i \in 1..Len(st.cfg.nodes) |-> i])

(* ------------------------------- commands ------------------------------- *)
\* y: [st, af, done, resc, stop, want (set of lists), raf (commands for other systems: [i, cmd])]
PctCmd(H(_, _), y, ni, buf) ==
  LET w == JbTok(buf, 1, 100)
      a == JbTok(buf, w.pos, 40)
      n == y.st.cfg.nodes[ni]
      say(z, txt) == AfLines(H, z, CmdReply(buf, txt))
      did(z) == [z EXCEPT !.done = TRUE]
      set(z, f(_)) == [z EXCEPT !.st.cfg.nodes[ni] = f(@), !.st.changed = TRUE, !.st.touch = @ \cup {PrintFull(n.a)}]
      want(t, txt) == did(say([y EXCEPT !.want = @ \cup {t}], txt))
      packers == AfLines(H, say(y, IF Starts(a.tok, "?") THEN "Sending list of packers:" ELSE "Unknown packer. Choose from this list:"),
                         <<Sub30("ZIP"), Sub30("STO"), Sub30("NONE")>>)
      c == Low(w.tok)
  IN CASE c = "%pause" -> IF n.f.PASSIVE THEN say(y, "Your system is already passive")
                          ELSE did(AfLine(H, say(set(y, LAMBDA x : [x EXCEPT !.f.PASSIVE = TRUE]), "Your system is marked as passive"),
                                          Sub30("Send %RESUME to get echomail again")))
       [] c = "%resume" -> IF n.f.PASSIVE THEN did(say(set(y, LAMBDA x : [x EXCEPT !.f.PASSIVE = FALSE]), "Your system is active again"))
                           ELSE say(y, "Your system is not paused")
       [] c = "%pwd" -> IF a.ok THEN did(say(set(y, LAMBDA x : [x EXCEPT !.afpw = a.tok]), "AreaFix password changed"))
                        ELSE say(y, "No new password specified")
       [] c = "%rescan" -> IF y.st.cfg.f.ALLOWRESCAN THEN say([y EXCEPT !.resc = TRUE], "Will rescan all areas added after this line")
                           ELSE say(y, "No rescanning allowed")
       [] c = "%compress" ->
            IF ~a.ok THEN say(y, "No new method specified")
            ELSE IF Low(a.tok) \in {"none", "zip", "sto"}
                 THEN did(say(set(y, LAMBDA x : [x EXCEPT !.packer = CASE Low(a.tok) = "zip" -> "ZIP" [] Low(a.tok) = "sto" -> "STO" [] OTHER -> ""]), "Packed changed"))
            ELSE did(packers)
       [] c = "%list" -> want("FULL", "Sending list of all areas")
       [] c = "%query" -> want("QUERY", "Sending query")
       [] c = "%unlinked" -> want("UNLINKED", "Sending list of all unlinkedareas")
       [] c = "%help" -> want("HELP", "Sending help file")
       [] c = "%info" -> want("INFO", "Sending configuration info")
       [] OTHER -> did(say(y, "Unknown command"))

\* '*' stands for the rest of the name, '?' for one character
TagMatch(p, t) ==
  LET k == Scan(p, 1, {"*"})
      q == Sub(p, 1, k - 1)
  IN /\ (IF k > Len(p) THEN Len(t) = Len(p) ELSE Len(t) >= k - 1)
     /\ \A i \in 1..Len(q) : SubSeq(q, i, i) = "?" \/ LowC(SubSeq(q, i, i)) = LowC(SubSeq(t, i, i))

FindForward(cfg, name, groups) ==
  IF name = "" \/ Len(name) > 79 THEN 0
  ELSE First(cfg.arealists, LAMBDA l : l.FORWARD /\ MatchGroup(l.group, groups) /\ \E i \in 1..Len(l.lines) : EqI(l.lines[i].tag, name))

AreaCmd(H(_, _), y0, ni, mynode, buf) ==
  LET comma == LastIdx(Chars(buf), LAMBDA c : c = ",")
      opt == IF comma = 0 THEN "" ELSE StripTrail(StripLead(From(buf, comma + 1)))
      nm0 == StripTrail(IF comma = 0 THEN buf ELSE Sub(buf, 1, comma - 1))
      cmd == CASE At(nm0, 1) = "-" -> "REMOVE" [] At(nm0, 1) = "=" -> "UPDATE" [] OTHER -> "ADD"
      name == IF At(nm0, 1) \in {"-", "=", "+"} THEN From(nm0, 2) ELSE nm0
      wild == IsWild(name)
      say(y, txt) == AfLines(H, y, CmdReply(buf, txt))
      rep(y, w, txt) == IF wild THEN AfLine(H, y, "   " \o w) ELSE say(y, txt)
      y1 == IF wild THEN AfLines(H, [y0 EXCEPT !.done = TRUE], <<buf, "">>) ELSE [y0 EXCEPT !.done = TRUE]
      \* one area
      one(z, i) ==
        LET y == z.y
            a == y.st.cfg.areas[i]
            n == y.st.cfg.nodes[ni]
            li == Linked(a, ni)
            ro == a.f.DEFREADONLY \/ MatchGroup(a.group, n.rogroups)
            att == [y EXCEPT !.st.cfg.areas[i].nodes = Append(@, [i |-> ni, ro |-> ro, wo |-> FALSE, feed |-> FALSE]), !.st.changed = TRUE, !.st.touch = @ \cup {Low(a.tag)}]
            rest == Without(a.nodes, li)
            det == rep([y EXCEPT !.st.cfg.areas[i].nodes = Without(@, li), !.st.changed = TRUE, !.st.touch = @ \cup {Low(a.tag)}], "Detached from " \o a.tag, "Detached")
            lastlink == rest = << >> \/ (Len(rest) = 1 /\ rest[1].feed)
            gone(w) == [w EXCEPT !.st.cfg.areas[i].type = "DELETED"]
            zr == IF a.nodes[li].feed /\ y.st.cfg.f.REMOVEWHENFEED THEN gone([det EXCEPT !.st = RemoveMsgs(H, @, i)])
                  ELSE IF y.st.cfg.f.AREAFIXREMOVE /\ lastlink /\ a.base = ""
                       THEN gone([det EXCEPT !.raf = IF rest = << >> THEN @ ELSE Append(@, [i |-> rest[1].i, cmd |-> "-" \o a.tag])])
                  ELSE det
        IN IF a.type # "ECHOMAIL" \/ ~TagMatch(name, a.tag) THEN z
           ELSE LET e == [z EXCEPT !.ex = TRUE] IN
             CASE cmd = "ADD" /\ li = 0 /\ ~Access(a, n) -> IF wild THEN e ELSE [e EXCEPT !.y = say(y, "You don't have access to that area")]
               [] cmd = "ADD" /\ li = 0 /\ SeqHas(a.banned, ni) -> [e EXCEPT !.pd = TRUE, !.y = rep(y, "You have been banned from " \o a.tag, "You have been banned from that area")]
               [] cmd = "ADD" /\ li = 0 -> [e EXCEPT !.pd = TRUE, !.ra = i, !.y = rep(att, "Attached to " \o a.tag \o (IF ro THEN " as read-only" ELSE ""), "Attached" \o (IF ro THEN " as read-only" ELSE ""))]
               [] cmd = "ADD" -> [e EXCEPT !.pd = TRUE, !.y = rep(y, "You are already attached to " \o a.tag, "You are already attached to that area")]
               [] cmd = "REMOVE" /\ li = 0 -> IF wild THEN e ELSE [e EXCEPT !.pd = TRUE, !.y = say(y, "You are not attached to that area")]
               [] cmd = "REMOVE" /\ a.f.MANDATORY /\ ~a.nodes[li].feed ->
                    [e EXCEPT !.pd = TRUE, !.y = rep(y, "You are not allowed to detach from " \o a.tag, "You are not allowed to detach from that area")]
               [] cmd = "REMOVE" -> [e EXCEPT !.pd = TRUE, !.y = zr]
               [] cmd = "UPDATE" /\ li # 0 -> IF wild THEN [e EXCEPT !.pd = TRUE, !.y = AfLine(H, y, "   Nothing to do with " \o a.tag)]
                                             ELSE [e EXCEPT !.pd = TRUE, !.ra = i, !.y = say(y, "Will rescan area")]
               [] OTHER -> e
      z1 == FoldLeft(one, [y |-> y1, pd |-> FALSE, ex |-> FALSE, ra |-> 0], [i \in 1..Len(y1.st.cfg.areas) |-> i])
      \* rescan
      isr == StartsI(opt, "r=")
      y2 == IF cmd # "REMOVE" /\ ~wild /\ z1.pd /\ z1.ra # 0
            THEN LET u == IF ~isr /\ opt # "" THEN AfLine(H, z1.y, Sub30("Unknown option " \o opt)) ELSE z1.y
                     r == RescanArea(u.st, z1.ra, ni, IF isr THEN Atoi(From(opt, 3)) ELSE 0)
                 IN IF ~u.resc /\ ~isr THEN u
                    ELSE IF ~u.st.cfg.f.ALLOWRESCAN THEN AfLine(H, u, Sub30("No rescanning allowed"))
                    ELSE IF u.st.cfg.areas[z1.ra].base = "" THEN AfLine(H, u, Sub30("Can't rescan, area is pass-through"))
                    ELSE AfLine(H, [u EXCEPT !.st = r.st], Sub30("Rescanned " \o N(r.n) \o " messages"))
            ELSE z1.y
      \* the final word
      fl == FindForward(y2.st.cfg, name, y2.st.cfg.nodes[ni].groups)
      l == y2.st.cfg.arealists[fl]
      up == y2.st.cfg.nodes[l.node]
      fwd == LET s == say(y2, "Request sent to " \o PrintFull(up.a))
                 r == [s EXCEPT !.raf = Append(@, [i |-> l.node, cmd |-> (IF up.f.AFNEEDSPLUS THEN "+" ELSE "") \o name])]
                 t == AddArea(r.st, name, up.a, mynode, TRUE, r.st.cfg.f.FORWARDPASSTHRU)
                 k == Len(t.cfg.areas)
             IN [r EXCEPT !.st = [t EXCEPT !.cfg.areas[k].group = l.group,
                                           !.cfg.areas[k].nodes = AddLink(@, ni, MatchGroup(l.group, t.cfg.nodes[ni].rogroups), FALSE, FALSE)]]
      y3 == CASE cmd = "ADD" /\ ~z1.pd /\ wild -> AfLine(H, y2, "   There were no matching areas to connect to")
              [] cmd = "ADD" /\ ~z1.pd /\ ~z1.ex -> IF y2.st.cfg.nodes[ni].f.FORWARDREQ /\ fl # 0 THEN fwd ELSE say(y2, "Unknown area")
              [] cmd = "REMOVE" /\ ~z1.pd -> IF wild THEN AfLine(H, y2, "   There were no matching areas to detach from") ELSE say(y2, "Unknown area")
              [] cmd = "UPDATE" /\ ~z1.pd -> IF wild THEN AfLine(H, y2, "   There were no matching areas") ELSE say(y2, "You are not attached to this area")
              [] cmd = "UPDATE" /\ z1.ra # 0 /\ ~y2.resc /\ opt = "" -> say(y2, "Nothing to do")
              [] OTHER -> y2
      y4 == IF wild THEN AfLine(H, y3, "") ELSE y3
  IN [y4 EXCEPT !.st = DropDeleted(@)]

ReqLine(H(_, _), y, ni, mynode, raw) ==
  LET s == Take(IF Ends(raw, CR) \/ Ends(raw, LF) THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw, 99)
      buf == StripLeadTrail(s)
      z == [y EXCEPT !.stop = Starts(s, "---")]
  IN IF y.stop THEN y
     ELSE IF buf = "" \/ Starts(buf, SOH) THEN z
     ELSE IF Starts(buf, "%") THEN PctCmd(H, z, ni, buf)
     ELSE AreaCmd(H, z, ni, mynode, buf)

SendRaf(H(_, _), st, raf) ==
  LET one(s, i) ==
        LET cmds == SelectSeq(raf, LAMBDA c : c.i = i)
            n == s.cfg.nodes[i]
            ri == FindRoute(s, n.a)
            m == AddLines(AutoMsg(s, n.a, s.cfg.akas[s.cfg.routes[ri].aka].a, n.rafname, s.cfg.sysop, n.rafpw, PVT),
                          [k \in 1..Len(cmds) |-> cmds[k].cmd \o CR] \o <<"---" \o CR \o "Generated by CrashMail 1.5.1" \o CR>>)
        IN IF cmds = << >> \/ ri = 0 THEN s ELSE H(s, m).st
  IN FoldLeft(one, st, [i \in 1..Len(st.cfg.nodes) |-> i])

AreaFixReq(H(_, _), st, mm) ==
  LET ri == FindRoute(st, mm.orig)
      my == st.cfg.akas[st.cfg.routes[ri].aka].a
      ni == FindNode(st.cfg, mm.orig)
      x0 == [st |-> st, af |-> AfInit(st, my, mm.from, mm.orig, "AreaFix response")]
      pw == JbTok(mm.subj, 1, 100)
      sw == JbTok(mm.subj, pw.pos, 100)
      y0 == [st |-> x0.st, af |-> x0.af, done |-> FALSE, resc |-> FALSE, stop |-> FALSE, want |-> {}, raf |-> << >>]
      y1 == IF sw.ok /\ Low(sw.tok) \in {"-q", "-l"}
            THEN [AfLines(H, y0, CmdReply(sw.tok, "Sending list of all areas")) EXCEPT !.done = TRUE, !.want = {"FULL"}] ELSE y0
      y2 == FoldLeft(LAMBDA y, l : ReqLine(H, y, ni, my, l), y1, SplitLines(Body(mm), 1))
      y3 == IF y2.done THEN y2 ELSE AfLine(H, y2, "Nothing to do.")
      s4 == AfSend(H, y3).st
      s5 == FoldLeft(LAMBDA s, t : IF t \in y3.want THEN SendText(H, s, ni, t, my, mm.from) ELSE s, s4, <<"FULL", "QUERY", "UNLINKED", "HELP", "INFO">>)
  IN IF ri = 0 THEN st
     ELSE IF ni = 0 THEN AfSend(H, AfLine(H, x0, "Sorry, your node is not configured here.")).st
     ELSE IF ~EqI(pw.tok, st.cfg.nodes[ni].afpw) THEN AfSend(H, AfLine(H, x0, "Sorry, wrong password.")).st
     ELSE SendRaf(H, s5, y3.raf)
=============================================================================
