----------------------------- MODULE CMNodelist ----------------------------
(* What a nodelist text means: the listed systems with their region, hub and *)
(* own line.  A list is [zone |-> default zone, lines |-> <<line, ...>>].     *)
(* Levels: 1 zone, 2 region and host, 3 hub and node, 4 point.  An entry     *)
(* that is down or has no valid number is not listed, and neither is what    *)
(* belongs to it (s.skip: its level, 9 if there is none).                    *)
EXTENDS CMAddr

NlKeys == <<[k |-> "Zone,", l |-> 1], [k |-> "Region,", l |-> 2], [k |-> "Host,", l |-> 2], [k |-> "Hub,", l |-> 3], [k |-> "Pvt,", l |-> 3],
            [k |-> "Hold,", l |-> 3], [k |-> "Down,", l |-> 3], [k |-> ",", l |-> 3], [k |-> "Point,", l |-> 4]>>
NlStep(s, line) ==
  LET i == First(NlKeys, LAMBDA x : StartsI(line, x.k))
      k == NlKeys[i].k   lev == NlKeys[i].l
      field == LET r == From(line, Len(k) + 1) IN StripTrail(Sub(r, 1, Scan(r, 1, {","}) - 1))
      ok == field # "" /\ Len(field) < 9 /\ IsDigits(field) /\ (Len(field) < 6 /\ Num(field) < 65536)
      v == Num(field)
      t == CASE k = "Zone,"   -> [s EXCEPT !.z = v, !.r = 0, !.n = v, !.h = 0, !.f = 0, !.p = 0]
             [] k = "Region," -> [s EXCEPT !.r = v, !.n = v, !.h = 0, !.f = 0, !.p = 0]
             [] k = "Host,"   -> [s EXCEPT !.n = v, !.h = 0, !.f = 0, !.p = 0]
             [] k = "Hub,"    -> [s EXCEPT !.h = v, !.f = v, !.p = 0]
             [] k = "Point,"  -> [s EXCEPT !.p = v]
             [] OTHER         -> [s EXCEPT !.f = v, !.p = 0]
  IN IF i = 0 THEN s
     ELSE IF lev > s.skip THEN s
     ELSE IF ~ok \/ k = "Down," THEN [s EXCEPT !.skip = lev]
     ELSE [t EXCEPT !.skip = 9, !.out = Append(@, [a |-> <<t.z, t.n, t.f, t.p>>, region |-> t.r, hub |-> t.h, line |-> line])]
NlList(list) == FoldLeft(NlStep, [z |-> list.zone, n |-> 0, f |-> 0, p |-> 0, r |-> 0, h |-> 0, skip |-> 9, out |-> << >>],
                         list.lines).out
NlEntries(lists) == FlattenSeq([i \in 1..Len(lists) |-> NlList(lists[i])])
\* the first list has precedence, and in a list the first entry
NlLookup(entries, a) == First(entries, LAMBDA e : e.a = a)

(* --------------------------- files on disk ------------------------------ *)
\* a configured name stands for the file of that name, or else for the newest file of that name with a numeric extension
NlFile(files, name) ==
  LET ex == First(files, LAMBDA f : f.name = name)
      cand == {i \in 1..Len(files) : LET n == files[i].name m == Len(n) IN
                 m = Len(name) + 4 /\ EqI(Take(n, m - 4), name) /\ At(n, m - 3) = "." /\ IsDigits(From(n, m - 2))}
  IN IF ex # 0 THEN ex ELSE IF cand = {} THEN 0 ELSE CHOOSE i \in cand : \A j \in cand : files[i].mtime >= files[j].mtime
NlText(data) == LET ls == SplitLF(data, 1) IN [i \in 1..Len(ls) |-> IF Ends(ls[i], CR) THEN SubSeq(ls[i], 1, Len(ls[i]) - 1) ELSE ls[i]]
NlConfigured(prefs, files) ==
  LET p == SelectSeq(prefs, LAMBDA x : NlFile(files, x.want) # 0)
  IN [i \in 1..Len(p) |-> [zone |-> p[i].zone, lines |-> NlText(files[NlFile(files, p[i].want)].data)]]

\* how a system is shown
NlNames == <<"Name: ", "Location: ", "Sysop: ", "Phone: ", "Baud: ">>
NlShow(e) ==
  LET l == StripTrail(Take(e.line, 199))      \* lines are at most 157 characters by FTS-5000
      t == Tokens(l, {","})
      plain == Starts(l, ",")
      d == IF plain THEN 1 ELSE 2
      fld == [i \in 1..5 |-> IF d + i <= Len(t) THEN NlNames[i] \o t[d + i] \o LF ELSE ""]
      \* everything after the fifth field
      last == AfterField(l, 1, d + 5)
  IN "Node is listed as a " \o (IF plain THEN "Node" ELSE t[1]) \o LF \o Join(fld)
     \o (IF last # "" THEN "Flags: " \o last \o LF ELSE "")
=============================================================================
