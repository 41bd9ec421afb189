------------------------------ MODULE CMWrite ------------------------------
(* The message writer: one message on the command line becomes one packet in *)
(* a directory, for the tosser to read.                                      *)
EXTENDS CMPkt

WStr == {"FROMNAME", "FROMADDR", "TONAME", "TOADDR", "SUBJECT", "AREA", "ORIGIN", "DIR", "TEXT", "PKTFROMADDR", "PKTTOADDR", "PASSWORD"}
WBool == {"NOMSGID", "FILEATTACH"}
WHelp == {"?", "-h", "--help", "help", "/h", "/?"}
Kw(s) == LET x == {k \in WStr \cup WBool : EqI(k, s)} IN IF x = {} THEN "" ELSE CHOOSE k \in x : TRUE

\* keywords in any order and any case; the last one counts.  An argument that is not given is << >>
NoArgs == [k \in WStr \cup WBool |-> << >>]
RECURSIVE ParseArgs(_, _, _)
ParseArgs(argv, i, acc) ==
  IF i > Len(argv) THEN [ok |-> acc["DIR"] # << >>, a |-> acc]
  ELSE LET k == Kw(argv[i]) IN
    IF k = "" THEN [ok |-> FALSE, a |-> acc]
    ELSE IF k \in WBool THEN ParseArgs(argv, i + 1, [acc EXCEPT ![k] = <<"">>])
    ELSE IF i = Len(argv) THEN [ok |-> FALSE, a |-> acc]
    ELSE ParseArgs(argv, i + 2, [acc EXCEPT ![k] = <<argv[i + 1]>>])

WOr(x, d) == IF x = << >> THEN d ELSE x[1]
AdrOk(x) == IF x = << >> THEN TRUE ELSE Parse4(x[1]).ok
Adr(x, d) == IF x = << >> THEN d ELSE Parse4(x[1]).a
WHas(s, x) == \E i \in 1..Len(s) : s[i] = x

\* e.dirs: the names under which the directory can be reached; e.texts: [name, data] of the files there are
WValid(e) == LET p == ParseArgs(e.argv, 1, NoArgs) a == p.a IN
  /\ p.ok
  /\ AdrOk(a["FROMADDR"]) /\ AdrOk(a["TOADDR"]) /\ AdrOk(a["PKTFROMADDR"]) /\ AdrOk(a["PKTTOADDR"])
  /\ WHas(e.dirs, a["DIR"][1])
  /\ a["TEXT"] # << >> => \E i \in 1..Len(e.texts) : e.texts[i].name = a["TEXT"][1]
WIsHelp(e) == Len(e.argv) > 0 /\ e.argv[1] \in WHelp

\* the text: any line end becomes CR, NULs are left out
WText(t) == Join([i \in 1..Len(t) |-> LET c == SubSeq(t, i, i) IN
              IF c = NUL \/ (c = LF /\ At(t, i - 1) = CR) THEN "" ELSE IF c = LF THEN CR ELSE c])

W2(n) == <<n % 256, n \div 256>>
MkHdr(o, d, pw) ==
  W2(o[3]) \o W2(d[3]) \o [i \in 1..12 |-> 0] \o W2(0) \o W2(2) \o W2(o[2]) \o W2(d[2]) \o <<254, 1>>
  \o [i \in 1..8 |-> IF i <= Len(pw) THEN Code[SubSeq(pw, i, i)] ELSE 0]
  \o W2(o[1]) \o W2(d[1]) \o W2(0) \o <<0, 1>> \o <<0, 5>> \o <<1, 0>>
  \o W2(o[1]) \o W2(d[1]) \o W2(o[4]) \o W2(d[4]) \o <<0, 0, 0, 0>>

WPkt(e, serial) ==
  LET a == ParseArgs(e.argv, 1, NoArgs).a
      from == Adr(a["FROMADDR"], Null4)   to == Adr(a["TOADDR"], Null4)
      area == a["AREA"]
      raw == IF a["TEXT"] = << >> THEN "" ELSE LET i == First(e.texts, LAMBDA x : x.name = a["TEXT"][1]) IN WText(e.texts[i].data)
      txt == raw \o (IF area # << >> /\ raw # "" /\ ~Ends(raw, CR) THEN CR ELSE "")
      s == (IF area # << >> THEN "AREA:" \o area[1] \o CR
            ELSE (IF from[4] # 0 THEN SOH \o "FMPT " \o N(from[4]) \o CR ELSE "")
                 \o (IF to[4] # 0 THEN SOH \o "TOPT " \o N(to[4]) \o CR ELSE "")
                 \o SOH \o "INTL " \o Print3(to) \o " " \o Print3(from) \o CR)
           \o (IF a["NOMSGID"] # << >> THEN "" ELSE SOH \o "MSGID: " \o PrintFull(from) \o " " \o serial \o CR)
           \o txt
           \o (IF area = << >> THEN "" ELSE "--- CrashWrite II/Linux 1.5.1" \o CR
                 \o " * Origin: " \o Take(WOr(a["ORIGIN"], "Another user of CrashMail II"), 79) \o " (" \o PrintFull(from) \o ")" \o CR)
  IN [raw |-> "", hdr |-> MkHdr(Adr(a["PKTFROMADDR"], from), Adr(a["PKTTOADDR"], to), Take(WOr(a["PASSWORD"], ""), 8)),
      msgs |-> <<[o2 |-> <<from[2], from[3]>>, d2 |-> <<to[2], to[3]>>,
                  attr |-> (IF area = << >> THEN PVT ELSE 0) + (IF a["FILEATTACH"] # << >> THEN FATTACH ELSE 0), cost |-> 0,
                  date |-> NOWDATE, to |-> Take(WOr(a["TONAME"], "All"), 35), from |-> Take(WOr(a["FROMNAME"], "CrashWrite"), 35),
                  subj |-> Take(WOr(a["SUBJECT"], "Information"), 71), lines |-> SplitLines(s, 1)]>>]

\* e.names: the files that appeared.  A run that ends with an error (a failing disk: e.fault) leaves nothing
WNum(e) == IF WIsHelp(e) \/ ~WValid(e) \/ (e.fault > 0 /\ e.obs.exit # 0) THEN 0 ELSE e.par
WExit(e) == IF WIsHelp(e) THEN {0} ELSE IF ~WValid(e) THEN {10} ELSE IF e.fault > 0 THEN {0, 10} ELSE {0}
WSerial(n) == Sub(n, 1, Len(n) - 4)
DoWrite(st, e) ==
  LET n == WNum(e)
      f(i) == [dir |-> "", name |-> e.names[i], kind |-> "PKT", act |-> TRUE, mtime |-> e.mtime, rank |-> i, id |-> e.wids[i],
               pkt |-> WPkt(e, WSerial(e.names[i]))]
      fs == IF Len(e.names) = n THEN [i \in 1..n |-> f(i)] ELSE << >>
  IN [st EXCEPT !.pend = @ \o fs, !.inb = @ \o [i \in 1..Len(fs) |-> [name |-> fs[i].name, id |-> fs[i].id]]]

HexDig == Digits \cup {"a", "b", "c", "d", "e", "f"}
WriteFacets(st, e) ==
  LET n == WNum(e)
      nameok(x) == Len(x) = 12 /\ Ends(x, ".pkt") /\ \A i \in 1..8 : SubSeq(x, i, i) \in HexDig
      same(raw, p) == LET q == ParseRaw(raw) IN
         /\ q.stop = "ok" /\ Len(raw) > 2 /\ Ends(raw, NUL \o NUL \o NUL)
         /\ W(q.hdr, 18) = 2 /\ PktAddr(q.hdr) = PktAddr(p.hdr) /\ HdrPw(q.hdr) = HdrPw(p.hdr)
         /\ q.hdr[41] = q.hdr[46] /\ q.hdr[42] = q.hdr[45] /\ W(q.hdr, 34) = W(q.hdr, 46) /\ W(q.hdr, 36) = W(q.hdr, 48)
         /\ q.msgs = p.msgs
  IN (IF Len(e.obs.wr) = n /\ \A i \in 1..n : nameok(e.obs.wr[i].name) THEN {} ELSE {"w.new"})
     \cup (IF Len(e.obs.wr) # n \/ Len(e.names) # n THEN {}
           ELSE IF \A i \in 1..n : same(e.obs.wr[i].raw, st.pend[Len(st.pend) - n + i].pkt) THEN {} ELSE {"w.pkt"})
=============================================================================
