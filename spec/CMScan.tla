------------------------------- MODULE CMScan ------------------------------
(* Local messages: what an editor does to the message bases between runs,    *)
(* and the scanner, which exports the messages written there.                *)
EXTENDS CMOutbound

Sorted(ms) == SortSeq(ms, LAMBDA x, y : x.num < y.num)

(* ------------------------------- editing -------------------------------- *)
\* x.do = "post": x.rec written under number x.rec.num; "del": message x.num
\* deleted; "hw": the high-water mark removed
Edit(st, x) ==
  LET ai == FindArea(st.cfg, x.tag)
      b == st.bases[ai]
      jam == st.cfg.areas[ai].base = "JAM"
      b1 == CASE x.do = "post" -> [b EXCEPT !.msgs = Sorted(Append(@, x.rec)), !.high = IF x.rec.num > @ THEN x.rec.num ELSE @]
              [] x.do = "del" -> IF jam THEN [b EXCEPT !.msgs = [i \in 1..Len(@) |-> IF @[i].num = x.num THEN [@[i] EXCEPT !.del = TRUE] ELSE @[i]]]
                                 ELSE [b EXCEPT !.msgs = SelectSeq(@, LAMBDA m : m.num # x.num)]
              [] x.do = "hw" -> [b EXCEPT !.hw = 0]
  IN [st EXCEPT !.bases[ai] = b1]
Edits(st, e) == FoldLeft(Edit, st, e.edits)

(* ------------------------------- scanning ------------------------------- *)
Local(m) == Bit(m.attr, ALOCAL) /\ ~Bit(m.attr, SENT)
JLocal(m) == ~m.del /\ Bit(m.attr, JLOCAL) /\ ~Bit(m.attr, JSENT)

\* a local message of a .msg area: [mm, rec] (the zone of the area is filled in)
MsgExport(st, ai, rec) ==
  LET a == st.cfg.areas[ai]
      net == a.type = "NETMAIL"
      z == st.cfg.akas[a.aka].a[1]
      lines == StoredLines(rec)
      k0 == First(lines, LAMBDA l : ~Starts(l, SOH) /\ ~Starts(l, LF))
      k == IF k0 = 0 THEN Len(lines) + 1 ELSE k0
      m0 == [NewMM EXCEPT !.area = IF net THEN "" ELSE a.tag, !.to = rec.to, !.from = rec.from, !.subj = rec.subj, !.date = rec.date,
               !.attr = ExportMask(rec.attr), !.cost = rec.cost, !.orig = [rec.orig EXCEPT ![1] = 0, ![4] = 0],
               !.dest = [rec.dest EXCEPT ![1] = 0, ![4] = 0]]
      m1 == TID(st.cfg, AddLines(m0, SubSeq(lines, 1, k - 1)))
      nozone == net /\ (m1.dest[1] = 0 \/ m1.orig[1] = 0)
      m2 == IF nozone THEN [m1 EXCEPT !.dest[1] = z, !.orig[1] = z] ELSE m1
      o == [rec.orig EXCEPT ![1] = z]   d == [rec.dest EXCEPT ![1] = z]
      m3 == IF nozone /\ st.cfg.f.FORCEINTL THEN AddLine(m2, SOH \o "INTL " \o Print3(d) \o " " \o Print3(o) \o CR) ELSE m2
      m4 == AddLines(m3, SubSeq(lines, k, Len(lines)))
  IN [mm |-> [m4 EXCEPT !.exported = TRUE],
      rec |-> IF nozone THEN [rec EXCEPT !.orig = o, !.dest = d] ELSE rec]

Upd(ms, num, f(_)) == [i \in 1..Len(ms) |-> IF ms[i].num = num THEN f(ms[i]) ELSE ms[i]]
ScanOne(st, tag, num) ==
  LET ai == FindArea(st.cfg, tag)
      a == st.cfg.areas[ai]
      rec == st.bases[ai].msgs[First(st.bases[ai].msgs, LAMBDA m : m.num = num)]
      jam == a.base = "JAM"
      x == IF jam THEN [mm |-> JamExport(st.cfg, a, st.cfg.akas[a.aka].a, rec, FALSE), rec |-> rec] ELSE MsgExport(st, ai, rec)
      r == Handle(st, x.mm)
      aj == FindArea(r.st.cfg, tag)
      kill == st.cfg.f.ALLOWKILLSENT /\ a.type = "NETMAIL" /\ Bit(rec.attr, IF jam THEN JKILLSENT ELSE KILLSENT)
      sent == IF st.cfg.f.MSG_WRITEBACK THEN MsgRec(r.st, num, [r.mm EXCEPT !.attr = SetBit(rec.attr, SENT)])
              ELSE [x.rec EXCEPT !.attr = SetBit(@, SENT)]
  IN IF jam THEN [r.st EXCEPT !.bases[aj].msgs = Upd(@, num, LAMBDA m : [m EXCEPT !.attr = SetBit(@, JSENT), !.del = kill])]
     ELSE IF kill THEN [r.st EXCEPT !.bases[aj].msgs = SelectSeq(@, LAMBDA m : m.num # num)]
     ELSE [r.st EXCEPT !.bases[aj].msgs = Upd(@, num, LAMBDA m : sent),
                       !.bases[aj].hw = IF st.cfg.f.MSG_HIGHWATER THEN num ELSE @]

ScanArea(st, tag) ==
  LET ai == FindArea(st.cfg, tag)
      b == st.bases[ai]
      jam == st.cfg.areas[ai].base = "JAM"
      hw == IF (IF jam THEN st.cfg.f.JAM_HIGHWATER ELSE st.cfg.f.MSG_HIGHWATER) THEN b.hw ELSE 0
      todo == SelectSeq(b.msgs, LAMBDA m : m.num > hw /\ IF jam THEN JLocal(m) ELSE Local(m))
      s == FoldLeft(LAMBDA acc, m : ScanOne(acc, tag, m.num), st, todo)
  IN IF jam /\ st.cfg.f.JAM_HIGHWATER THEN [s EXCEPT !.bases[ai].hw = b.old] ELSE s

\* the areas a command names
Scannable(st, a, cmd) == a.type \in {"ECHOMAIL", "NETMAIL"} /\ a.base # "" /\ ~(cmd # "AREA" /\ a.type = "NETMAIL" /\ st.cfg.f.NOEXPORTNETMAIL)
ScanTargets(st, e) ==
  LET all == [i \in 1..Len(st.cfg.areas) |-> i]
      line(l) == IF e.how = "DOTJAM" THEN First(st.cfg.areas, LAMBDA a : a.base # "" /\ EqI(a.path, Take(l, Scan(l, 1, {" "}) - 1)))
                 ELSE FindArea(st.cfg, l)
      idx == CASE e.how = "ALL" -> all
               [] e.how = "AREA" -> <<FindArea(st.cfg, e.tag)>>
               [] OTHER -> [i \in 1..Len(e.lines) |-> line(StripTrail(e.lines[i]))]
      ok == SelectSeq(idx, LAMBDA i : i # 0 /\ Scannable(st, st.cfg.areas[IF i = 0 THEN 1 ELSE i], e.how))
      \* each once
      uniq == FoldLeft(LAMBDA acc, i : IF SeqHas(acc, i) THEN acc ELSE Append(acc, i), << >>, ok)
  IN [k \in 1..Len(uniq) |-> st.cfg.areas[uniq[k]].tag]
ScanRun(st, tags) == FoldLeft(LAMBDA s, t : ScanArea(s, t), st, tags)
=============================================================================
