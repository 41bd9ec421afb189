----------------------------- MODULE CMExport ------------------------------
(* Area lists for other programs (crashexport): what is written about the    *)
(* areas of a configuration, in each format.                                 *)
(*   q   the arguments: fmt, group ("" all groups)                           *)
(*   r   the result: exit, lines (without the comment at the beginning)      *)
EXTENDS CMReport

ExpHas(q, a) == /\ ~a.f.UNCONFIRMED /\ a.type # "DEFAULT"
                /\ q.group = "" \/ (a.group # "" /\ HasSub(Low(q.group), Low(a.group)))
ExpLinks(cfg, a) == JoinSep(Map(LAMBDA l : Print4(cfg.nodes[l.i].a), a.nodes), " ")
Quoteless(s) == Join(Map(LAMBDA i : IF At(s, i) = "\"" THEN "'" ELSE At(s, i), [i \in 1..Len(s) |-> i]))
\* the lines about one area: one or none
ExpArea(cfg, q, a) ==
  LET own == Print4(cfg.akas[a.aka].a)
      where == IF a.base = "MSG" THEN a.path ELSE IF a.base = "JAM" THEN "!" \o a.path ELSE "#" \o a.tag
      kind(n, l, e) == IF a.type = "NETMAIL" THEN n ELSE IF a.type = "LOCAL" THEN l ELSE e
  IN CASE q.fmt = "AREASBBS" -> IF a.type \in {"NETMAIL", "LOCAL"} THEN << >> ELSE <<where \o " " \o a.tag \o " " \o ExpLinks(cfg, a)>>
       [] q.fmt = "FORWARD" -> IF a.type # "ECHOMAIL" THEN << >> ELSE <<a.tag \o (IF a.desc = "" THEN "" ELSE " " \o a.desc)>>
       [] q.fmt = "FORWARDNODESC" -> IF a.type # "ECHOMAIL" THEN << >> ELSE <<a.tag>>
       [] q.fmt = "GOLDED" -> IF a.base = "" THEN << >>
            ELSE <<"AREADEF " \o a.tag \o " \"" \o Quoteless(a.desc) \o "\" " \o (IF a.group = "" THEN "0" ELSE a.group) \o " " \o kind("NET", "LOCAL", "ECHO")
                   \o " " \o (IF a.base = "MSG" THEN "FTS1" ELSE "JAM") \o " " \o a.path \o " " \o own \o (IF a.type = "NETMAIL" THEN " (Loc Pvt)" ELSE " (Loc)")>>
       [] q.fmt = "TIMED" -> IF a.base = "" THEN << >>
            ELSE <<kind("NetArea", "LocalArea", "EchoArea") \o " \"" \o Quoteless(a.desc) \o "\" " \o a.tag \o " " \o a.path \o " -P" \o own
                   \o (IF a.base = "JAM" THEN " -J" ELSE "")>>
ExpLines(cfg, q) == (IF q.fmt = "AREASBBS" THEN <<"Default origin ! " \o cfg.sysop>> ELSE << >>)
                    \o FlattenSeq(Map(LAMBDA a : ExpArea(cfg, q, a), SelectSeq(cfg.areas, LAMBDA a : ExpHas(q, a))))
ExportOk(s, q, r) == r.exit = 0 /\ r.lines = ExpLines(s.cfg, q)
=============================================================================
