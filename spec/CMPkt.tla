------------------------------- MODULE CMPkt -------------------------------
(* Reading inbound packets.  A packet file is either structured,             *)
(*   [hdr |-> 58 bytes, msgs |-> <<message>>, ...]                            *)
(* or raw, [raw |-> string of bytes]; ParseRaw turns the second into the     *)
(* first, following the packet format byte by byte.                          *)
EXTENDS CMOutbound

W(h, off) == h[off + 1] + 256 * h[off + 2]

PktAddr(h) ==
  IF W(h, 16) = 2
  THEN [o |-> <<W(h, 46), W(h, 20), W(h, 0), W(h, 50)>>, d |-> <<W(h, 48), W(h, 22), W(h, 2), W(h, 52)>>]
  ELSE LET oz == IF W(h, 46) # 0 THEN W(h, 46) ELSE IF W(h, 34) # 0 THEN W(h, 34) ELSE 0
           dz == IF W(h, 46) # 0 THEN W(h, 48) ELSE IF W(h, 34) # 0 THEN W(h, 36) ELSE 0
           four == h[41] = h[46] /\ h[42] = h[45]
           on == IF four /\ W(h, 50) # 0 /\ W(h, 20) = 65535 THEN W(h, 38) ELSE W(h, 20)
       IN [o |-> <<oz, on, W(h, 0), IF four THEN W(h, 50) ELSE 0>>,
           d |-> <<dz, W(h, 22), W(h, 2), IF four THEN W(h, 52) ELSE 0>>]
FixZones(cfg, a) ==
  LET no == FindNode(cfg, a.o)
      oz == IF a.o[1] # 0 THEN a.o[1] ELSE IF no # 0 THEN cfg.nodes[no].a[1] ELSE cfg.defzone
      ka == FindAka(cfg, a.d)
      dz == IF a.d[1] # 0 THEN a.d[1] ELSE IF ka # 0 THEN cfg.akas[ka].a[1] ELSE cfg.defzone
  IN [o |-> [a.o EXCEPT ![1] = oz], d |-> [a.d EXCEPT ![1] = dz]]
HdrPw(h) == LET z == {i \in 1..8 : h[26 + i] = 0}
                n == IF z = {} THEN 8 ELSE (CHOOSE i \in z : \A j \in z : i <= j) - 1
            IN Join([i \in 1..n |-> Chr[h[26 + i] + 1]])

\* first text line: AREA: line or text
AreaOf(line) == StripLeadTrail(Take(Sub(line, 6, IF Ends(line, CR) \/ Ends(line, LF) THEN Len(line) - 1 ELSE Len(line)), 79))
IsEcho(m) == Len(m.lines) > 0 /\ Starts(m.lines[1], "AREA:") /\ AreaOf(m.lines[1]) # ""
AreaTag(m) == IF Len(m.lines) > 0 /\ Starts(m.lines[1], "AREA:") THEN AreaOf(m.lines[1]) ELSE ""
HdrOk(m) == Len(m.date) < 20 /\ Len(m.to) < 36 /\ Len(m.from) < 36 /\ Len(m.subj) < 72

PwOk(st, p, m, nosec) ==
  LET ni == FindNode(st.cfg, p.o) IN
  \/ nosec \/ ni = 0 \/ st.cfg.nodes[IF ni = 0 THEN 1 ELSE ni].pw = ""
  \/ (AreaTag(m) = "" /\ st.cfg.nodes[ni].f.NONETMAILPASSWORD)
  \/ EqI(HdrPw(p.hdr), st.cfg.nodes[ni].pw)

ToMM(p, m, nosec) ==
  LET ls == CutLines(m.lines)
      isarea == Len(ls) > 0 /\ Starts(ls[1], "AREA:")
      m0 == [NewMM EXCEPT !.orig = <<p.o[1], m.o2[1], m.o2[2], 0>>, !.dest = <<p.d[1], m.d2[1], m.d2[2], 0>>,
              !.porig = p.o, !.pdest = p.d, !.attr = m.attr, !.cost = m.cost, !.nosec = nosec,
              !.date = m.date, !.to = m.to, !.from = m.from, !.subj = m.subj,
              !.area = AreaTag(m), !.tossed = TRUE]
  IN AddLines(m0, IF isarea THEN Tail(ls) ELSE ls)

TossMsg(st, p, m, nosec) ==
  LET mm == ToMM(p, m, nosec)
      ni == FindNode(st.cfg, p.o)
      st1 == IF ni = 0 THEN st
             ELSE IF mm.area # "" THEN [st EXCEPT !.ns[ni].gote = @ + 1, !.ns[ni].goteb = @ + BodyLen(mm)]
             ELSE [st EXCEPT !.ns[ni].gotn = @ + 1, !.ns[ni].gotnb = @ + BodyLen(mm)]
  IN Handle(st1, mm).st

(* -------------------------- raw packet parser --------------------------- *)
\* position of the NUL ending a string starting at i (0: none)
NulAt(s, i) == LET e == Scan(s, i, {NUL}) IN IF e > Len(s) THEN 0 ELSE e
B(s, i) == Code[SubSeq(s, i, i)]
WS(s, i) == B(s, i) + 256 * B(s, i + 1)
\* stop: "ok" or "bad"; a message that is only partly there is kept in msgs with
\* trunc = TRUE (it is never acted on)
RECURSIVE RawMsgs(_, _, _)
RawMsgs(s, i, n) ==
  LET left == Len(s) - i + 1
      e1 == NulAt(s, i + 14)
      e2 == IF e1 = 0 THEN 0 ELSE NulAt(s, e1 + 1)
      e3 == IF e2 = 0 THEN 0 ELSE NulAt(s, e2 + 1)
      e4 == IF e3 = 0 THEN 0 ELSE NulAt(s, e3 + 1)
      e5 == IF e4 = 0 THEN 0 ELSE NulAt(s, e4 + 1)
  IN \* a single zero byte also ends the packet; before the first
     \* message at least the two terminating bytes are required
     IF left < 2 THEN [stop |-> IF n > 0 /\ left = 1 /\ B(s, i) = 0 THEN "ok" ELSE "bad", msgs |-> << >>]
     ELSE IF WS(s, i) = 0 THEN [stop |-> "ok", msgs |-> << >>]
     ELSE IF WS(s, i) # 2 THEN [stop |-> "bad", msgs |-> << >>]
     ELSE IF left < 14 \/ e5 = 0 THEN [stop |-> "bad", msgs |-> << >>]
     ELSE LET m == [o2 |-> <<WS(s, i + 6), WS(s, i + 2)>>, d2 |-> <<WS(s, i + 8), WS(s, i + 4)>>,
                    attr |-> WS(s, i + 10), cost |-> WS(s, i + 12),
                    date |-> Sub(s, i + 14, e1 - 1), to |-> Sub(s, e1 + 1, e2 - 1),
                    from |-> Sub(s, e2 + 1, e3 - 1), subj |-> Sub(s, e3 + 1, e4 - 1),
                    lines |-> SplitLines(Sub(s, e4 + 1, e5 - 1), 1)]
          IN IF ~HdrOk(m) THEN [stop |-> "bad", msgs |-> << >>]
             ELSE LET r == RawMsgs(s, e5 + 1, n + 1) IN [stop |-> r.stop, msgs |-> <<m>> \o r.msgs]
ParseRaw(s) ==
  IF Len(s) < 58 THEN [hdr |-> << >>, msgs |-> << >>, stop |-> "bad"]
  ELSE LET r == RawMsgs(s, 59, 0)
       IN [hdr |-> [k \in 1..58 |-> B(s, k)], msgs |-> r.msgs, stop |-> r.stop]
\* a structured packet ends properly; over-long header strings stop it
Structured(p) ==
  LET bad == First(p.msgs, LAMBDA m : ~HdrOk(m))
  IN [hdr |-> p.hdr, msgs |-> IF bad = 0 THEN p.msgs ELSE SubSeq(p.msgs, 1, bad - 1),
      stop |-> IF bad = 0 THEN "ok" ELSE "bad"]
\* pk is a record with field raw (non-empty string) or hdr/msgs
Parsed(pk) == IF pk.raw # "" THEN ParseRaw(pk.raw) ELSE Structured(pk)

\* toss one packet; result [st, ok]
TossPkt(st, pk, nosec) ==
  LET q == Parsed(pk)
      a == PktAddr(q.hdr)
      notme == st.cfg.f.CHECKPKTDEST /\ ~nosec /\ FindAka(st.cfg, a.d) = 0
      z == FixZones(st.cfg, a)
      p == [hdr |-> q.hdr, o |-> z.o, d |-> z.d]
      badpw == First(q.msgs, LAMBDA m : ~PwOk(st, p, m, nosec))
      n == IF badpw = 0 THEN Len(q.msgs) ELSE badpw - 1
  IN IF q.hdr = << >> THEN [st |-> st, ok |-> FALSE]
     ELSE IF W(q.hdr, 18) # 2 \/ notme THEN [st |-> st, ok |-> FALSE]
     ELSE [st |-> FoldLeft(LAMBDA s, m : TossMsg(s, p, m, nosec), st, SubSeq(q.msgs, 1, n)),
           ok |-> badpw = 0 /\ q.stop = "ok"]
=============================================================================
