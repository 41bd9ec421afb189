------------------------------ MODULE CMTrace ------------------------------
(* Conformance: scenarios executed by the real programs are replayed through *)
(* the model.  Each initial state is one scenario; each step applies one     *)
(* recorded event to the model state and compares what the model predicts    *)
(* with what was observed on disk.  `fail` names the facets that differ;     *)
(* the invariant of a property names the facets it owns.                     *)
EXTENDS CMWrite, CMMaint, CMNodelist, CMExport

Data == JsonDeserialize(IOEnv.CM_DATA)
Owned == JsonDeserialize(IOEnv.CM_OWNED)     \* facets of the property checked
Scenarios == Data.scenarios
Debug == "CM_DEBUG" \in DOMAIN IOEnv

VARIABLES sc, k, st, fail

(* ------------------------------- events --------------------------------- *)
\* inbound: sequence of [name, id]
Exists(inb, n) == \E i \in 1..Len(inb) : inb[i].name = n
RECURSIVE BadName(_, _, _)
BadName(inb, name, n) == LET c == name \o ".bad" \o (IF n = 0 THEN "" ELSE "," \o N(n))
                         IN IF Exists(inb, c) THEN BadName(inb, name, n + 1) ELSE c
Age(f, g) == f.mtime < g.mtime \/ (f.mtime = g.mtime /\ f.rank < g.rank)

\* inbound files are named by their directory ("" for the inbound) and name
TossFile(s, f, nosec) ==
  LET r == TossPkt(s, f.pkt, nosec)
      inb == SelectSeq(r.st.inb, LAMBDA x : x.name # f.dir \o f.name)
  IN [r.st EXCEPT !.inb = IF r.ok THEN inb ELSE Append(inb, [name |-> BadName(inb, f.name, 0), id |-> f.id])]
\* A bundle: "ok" unpacks into its members, "empty" is deleted, "bad" (not recognised or not unpackable) kept aside
TossArc(s, f, nosec) ==
  LET inb == SelectSeq(s.inb, LAMBDA x : x.name # f.dir \o f.name)
      s1 == [s EXCEPT !.inb = inb]
  IN CASE f.state = "empty" -> s1
       [] f.state = "bad" -> [s1 EXCEPT !.inb = Append(inb, [name |-> BadName(inb, f.name, 0), id |-> f.id])]
       [] OTHER -> FoldLeft(LAMBDA a, m : TossFile(a, m, nosec), s1, SortSeq(f.members, Age))

DoToss(s, e) ==
  LET ids(fs) == [i \in 1..Len(fs) |-> [name |-> fs[i].dir \o fs[i].name, id |-> fs[i].id]]
      aux == [i \in 1..Len(e.aux) |-> [name |-> e.aux[i].name, id |-> e.aux[i].id]]
      s0 == [BeginRun(s) EXCEPT !.inb = @ \o ids(e.files) \o aux, !.pend = << >>]
      pk == SortSeq(SelectSeq(s.pend \o e.files, LAMBDA f : f.kind = "PKT" /\ f.act), Age)
      ar == SortSeq(SelectSeq(e.files, LAMBDA f : f.kind = "ARC" /\ f.act), Age)
  IN FoldLeft(LAMBDA a, f : TossArc(a, f, e.nosec), FoldLeft(LAMBDA a, f : TossFile(a, f, e.nosec), s0, pk), ar)

Apply(s, e) ==
  LET s0 == Edits(IF e.drained THEN Drain(s) ELSE s, e)
      b == BeginRun(s0)
  IN CASE e.op = "toss" -> EndRun(DoToss(s0, e), e)
       [] e.op = "maint" -> Maint(b, e)
       [] e.op = "write" -> DoWrite(b, e)
       [] e.op = "scan" -> LET t == ScanTargets(b, e) IN IF e.how = "AREA" /\ t = << >> THEN b ELSE EndRun(ScanRun(b, t), e)
       \* e.node: 0 all, -1 one that is not configured
       [] e.op = "notify" -> IF e.node < 0 THEN b ELSE EndRun(IF e.node = 0 THEN NotifyAll(Handle, b, e.type) ELSE Notify(Handle, b, e.node, e.type), e)
       [] e.op = "remove" -> LET i == FindArea(b.cfg, e.tag) IN
                             IF i = 0 \/ b.cfg.areas[IF i = 0 THEN 1 ELSE i].type # "ECHOMAIL" THEN b ELSE EndRun(RemoveArea(Handle, b, e.tag), e)
       [] e.op = "rescan" -> LET i == FindArea(b.cfg, e.tag) a == b.cfg.areas[i] IN
                             IF e.node < 1 \/ i = 0 THEN b ELSE IF a.type # "ECHOMAIL" \/ a.base = "" THEN b
                             ELSE EndRun(RescanArea(b, i, e.node, e.max).st, e)

(* ---------------------------- comparing --------------------------------- *)
\* an observed message: lines split into text, SEEN-BY and PATH
ObsParts(m) ==
  LET isSB(l) == Starts(l, "SEEN-BY:")   isP(l) == Starts(l, SOH \o "PATH:")
      echo == m.area # ""
      txt == IF echo THEN SelectSeq(m.lines, LAMBDA l : ~isSB(l) /\ ~isP(l)) ELSE m.lines
  IN [body |-> Join(txt),
      sbl |-> IF echo THEN SelectSeq(m.lines, isSB) ELSE << >>,
      pathl |-> IF echo THEN SelectSeq(m.lines, isP) ELSE << >>,
      order |-> ~echo \/ m.lines = txt \o SelectSeq(m.lines, isSB) \o SelectSeq(m.lines, isP)]
Full(m) == LET p == ObsParts(m) IN
  [o2 |-> m.o2, d2 |-> m.d2, attr |-> m.attr, cost |-> m.cost, date |-> m.date, to |-> m.to, from |-> m.from,
   subj |-> m.subj, area |-> m.area, body |-> p.body, sbl |-> p.sbl, pathl |-> p.pathl, order |-> p.order]
Ident(m) == <<m.area, m.subj>>
MHead(m) == <<m.area, m.o2, m.d2, m.attr, m.cost, m.date, m.to, m.from, m.subj>>

\* packets grouped by key
Keys(ps, K(_)) == {K(ps[i]) : i \in 1..Len(ps)}
MsgsOf(ps, K(_), key) == LET q == SelectSeq(ps, LAMBDA p : K(p) = key) IN FlattenSeq([i \in 1..Len(q) |-> q[i].msgs])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

EKey(p) == <<p.dest, p.orig>>
NKey(p) == <<p.dest, p.type>>
EGroups(ps) == [key \in Keys(ps, EKey) |-> MsgsOf(ps, EKey, key)]
NGroups(ps) == [key \in Keys(ps, NKey) |-> MsgsOf(ps, NKey, key)]
GMap(f(_), g) == [key \in DOMAIN g |-> Map(f, g[key])]
GBag(f(_), g, h) == DOMAIN g = DOMAIN h /\ \A key \in DOMAIN g : SameBag(Map(f, g[key]), Map(f, h[key]))

OutFacets(s, o) ==
  LET em == SelectSeq(s.ob, LAMBDA p : p.type = "ECHOMAIL")
      nm == SelectSeq(s.ob, LAMBDA p : p.type # "ECHOMAIL")
      eo == SelectSeq(o.out, LAMBDA p : p.type = "ECHOMAIL")
      no == SelectSeq(o.out, LAMBDA p : p.type # "ECHOMAIL")
      me == EGroups(em)   oe == GMap(Full, EGroups(eo))
      mn == NGroups(nm)   on == GMap(Full, NGroups(no))
      f(name, g(_)) == IF GMap(g, me) = GMap(g, oe) THEN {} ELSE {name}
      bsize(ps) == [key \in Keys(ps, EKey) |-> LET q == SelectSeq(ps, LAMBDA p : EKey(p) = key)
                       IN [i \in 1..Len(q) |-> <<q[i].pw, Len(q[i].msgs)>>]]
  IN f("e.rcpt", Ident) \cup f("e.head", MHead) \cup f("e.body", LAMBDA m : <<Ident(m), m.body>>)
     \cup f("e.sb", LAMBDA m : <<Ident(m), m.sbl>>) \cup f("e.path", LAMBDA m : <<Ident(m), m.pathl>>)
     \cup (IF \A key \in DOMAIN oe : \A i \in 1..Len(oe[key]) : oe[key][i].order THEN {} ELSE {"e.order"})
     \cup (IF GBag(LAMBDA m : <<m.subj>>, mn, on) THEN {} ELSE {"n.rcpt"})
     \cup (IF GBag(MHead, mn, on) THEN {} ELSE {"n.head"})
     \cup (IF GBag(LAMBDA m : <<m.subj, m.body>>, mn, on) THEN {} ELSE {"n.body"})
     \* packet headers, passwords and splitting
     \cup (IF bsize(em) = bsize(eo) THEN {} ELSE {"p.echo"})
     \cup (IF \A i \in 1..Len(no) : \E j \in 1..Len(nm) :
                NKey(no[i]) = NKey(nm[j]) /\ no[i].orig = nm[j].orig /\ no[i].pw = nm[j].pw THEN {} ELSE {"p.net"})
     \cup (IF \A i \in 1..Len(o.out) : o.out[i].wf THEN {} ELSE {"p.form"})

BIdent(m) == <<m.num, m.subj>>
BHead(m) == <<m.num, m.from, m.to, m.subj, m.date, m.attr, m.cost, m.orig, m.dest>>
BFull(m, echo) == LET p == ObsParts([m EXCEPT !.area = IF echo THEN "x" ELSE ""]) IN
  [num |-> m.num, from |-> m.from, to |-> m.to, subj |-> m.subj, date |-> m.date, attr |-> m.attr, cost |-> m.cost,
   orig |-> m.orig, dest |-> m.dest, body |-> p.body, sbl |-> p.sbl, pathl |-> p.pathl, order |-> p.order, keep |-> m.keep, rto |-> m.rto, nr |-> m.nr]
SBSet(ls) == FoldLeft(LAMBDA acc, l : AddSeenBy(acc, From(l, 10)), {}, ls)
\* reply links: every message points to what it answers, and the chain of replies to a message holds those and no others
RECURSIVE Chain(_, _, _)
Chain(ms, n, seen) == IF n = 0 THEN seen ELSE
  LET i == First(ms, LAMBDA m : m.num = n) IN
  IF i = 0 \/ n \in seen THEN {-1} ELSE Chain(ms, ms[i].rn, seen \cup {n})
LinkFacet(mb, fo) ==
  (IF Map(LAMBDA m : <<m.num, m.rto>>, mb) = Map(LAMBDA m : <<m.num, m.rto>>, fo) THEN {} ELSE {"links"})
  \cup (IF \A i \in 1..Len(fo) : fo[i].gone \/ Chain(fo, fo[i].r1, {}) = {fo[j].num : j \in {j \in 1..Len(fo) : fo[j].rto = fo[i].num}} THEN {} ELSE {"links"})
Class(a) == CASE a.type = "NETMAIL" -> "nb" [] a.type = "BAD" -> "bad" [] OTHER -> "b"
BaseFacets(s, o) ==
  UNION {LET a == s.cfg.areas[i]
             mb == s.bases[i].msgs
             oi == First(o.bases, LAMBDA x : EqI(x.tag, a.tag))
             ob == IF oi = 0 THEN << >> ELSE o.bases[oi].msgs
             echo == a.type # "NETMAIL" /\ a.type # "BAD"
             jam == a.base = "JAM"
             fo == [j \in 1..Len(ob) |-> IF jam THEN ob[j] ELSE BFull(ob[j], ob[j].echo)]
             c == Class(a)
             fl(m, id) == SelectSeq(m.fl, LAMBDA x : x.id = id)
             g(name, f(_)) == IF Map(f, mb) = Map(f, fo) THEN {} ELSE {c \o name}
             live(ms) == SelectSeq(ms, LAMBDA m : ~m.del)
             h(name, f(_)) == IF Map(f, live(mb)) = Map(f, live(fo)) THEN {} ELSE {c \o name}
         IN IF a.base = "" THEN (IF ob = << >> THEN {} ELSE {c \o ".ids"})
            ELSE (IF oi = 0 \/ (s.bases[i].hw = o.bases[oi].hw) THEN {} ELSE {"hw"})
                 \cup (IF oi = 0 \/ o.bases[oi].wf THEN {} ELSE {"wf"})
                 \cup IF jam
                 THEN g(".ids", LAMBDA m : <<m.num, m.del, IF m.del THEN "" ELSE m.subj>>)
                      \cup h(".head", LAMBDA m : <<m.num, m.from, m.to, m.subj, m.date, m.attr, m.cost, m.oaddr, m.daddr>>)
                      \cup h(".body", LAMBDA m : <<m.num, SelectSeq(m.fl, LAMBDA x : x.id \notin {2001, 2002}), m.text>>)
                      \cup h(".sb", LAMBDA m : <<m.num, IF c = "bad" \/ a.f.UNCONFIRMED THEN SBSet(Map(LAMBDA x : "SEEN-BY: " \o x.d, fl(m, 2001))) ELSE fl(m, 2001)>>)
                      \cup h(".path", LAMBDA m : <<m.num, fl(m, 2002)>>)
                      \cup h(".keep", LAMBDA m : <<m.num, m.keep>>)
                      \cup LinkFacet(mb, fo)
                 ELSE g(".ids", BIdent) \cup g(".keep", LAMBDA m : <<m.num, m.keep, m.rto, m.nr>>) \cup g(".head", BHead) \cup g(".body", LAMBDA m : <<m.num, m.body>>)
                 \* the bad area and areas not confirmed keep the SEEN-BYs as they came: order is free
                 \cup g(".sb", LAMBDA m : <<m.num, IF c = "bad" \/ a.f.UNCONFIRMED THEN SBSet(m.sbl) ELSE m.sbl>>) \cup g(".path", LAMBDA m : <<m.num, m.pathl>>)
         : i \in 1..Len(s.cfg.areas)}

InbFacet(s, o) == IF {s.inb[i] : i \in 1..Len(s.inb)} = {o.inb[i] : i \in 1..Len(o.inb)} THEN {} ELSE {"inb"}
DupeFacet(s, o) == IF s.dupes = o.dupes THEN {} ELSE {"dupe"}

\* files queued for other systems (no packets)
FlowFacet(s, o) ==
  LET f == SelectSeq(o.flow, LAMBDA x : x.kind = "FILE")
      key(x) == [dest |-> x.dest, pri |-> x.pri, mode |-> x.mode, name |-> x.name, id |-> x.id]
  IN IF Len(f) = Len(s.of) /\ {key(f[i]) : i \in 1..Len(f)} = {s.of[i] : i \in 1..Len(s.of)} THEN {} ELSE {"flow"}

\* where and how packets lie in the outbound
PlaceFacets(s, e, o) ==
  LET node(a) == FindNode(s.cfg, a)
      whereok == (\A i \in 1..Len(o.out) : o.out[i].where = DirOf(s, o.out[i].dest))
                 /\ (\A i \in 1..Len(o.flow) : o.flow[i].where = DirOf(s, o.flow[i].dest))
      form(p) == IF p.type = "ECHOMAIL"
                 THEN LET n == node(p.dest) IN n # 0 /\ p.pri = s.cfg.nodes[n].pri /\ p.src = (IF s.cfg.nodes[n].packer = "" THEN "PKT" ELSE "ARC")
                 ELSE p.src = "OUT" /\ p.pri = p.type
      fl(x) == x.crlf = s.cfg.f.FLOWCRLF /\ (x.kind # "FILE" => (x.mode = "^" /\ x.exists))
      listed == LET q == SelectSeq(o.out, LAMBDA p : p.src # "OUT") IN \A i \in 1..Len(q) : \E j \in 1..Len(o.flow) : o.flow[j].dest = q[i].dest
      arcs == \A i \in 1..Len(s.cfg.nodes) :
                 LET oa == SelectSeq(o.arcs, LAMBDA x : x.dest = s.cfg.nodes[i].a)
                 IN {[name |-> oa[j].name, n |-> Len(oa[j].cum)] : j \in 1..Len(oa)} = {s.arc[i].list[j] : j \in 1..Len(s.arc[i].list)}
      bases == \A i, j \in 1..Len(s.cfg.nodes) : i # j /\ s.arc[i].base # "" => s.arc[i].base # s.arc[j].base
      cnt(x) == Cardinality({i \in 1..Len(o.left) : Ends(o.left[i], x)})
      leftok == cnt(".pkttmp") = Len(s.wait) /\ cnt(".orphan") = Cardinality({s.waitf[i].name : i \in 1..Len(s.waitf)}) /\ cnt(".bsy") = Len(e.busy)
                /\ \A i \in 1..Len(o.left) : \E x \in {".pkttmp", ".orphan", ".bsy"} \cup {s.waitf[j].name : j \in 1..Len(s.waitf)} : Ends(o.left[i], x)
  IN (IF whereok THEN {} ELSE {"where"})
     \cup (IF \A i \in 1..Len(o.out) : form(o.out[i]) THEN {} ELSE {"place"})
     \cup (IF (\A i \in 1..Len(o.flow) : fl(o.flow[i])) /\ listed THEN {} ELSE {"flowform"})
     \cup (IF arcs /\ bases THEN {} ELSE {"arc"})
     \cup (IF \A i \in 1..Len(o.out) : o.out[i].hdest = o.out[i].dest THEN {} ELSE {"p.hdest"})
     \cup (IF leftok THEN {} ELSE {"left"})

StatFacets(s, o) == IF s.stats.day = 0 THEN (IF o.stats.day = 0 THEN {} ELSE {"stats.a"}) ELSE
  (IF Len(o.stats.areas) = Len(StatAreas(s)) /\ ToSet(o.stats.areas) = ToSet(StatAreas(s)) /\ o.stats.day = s.stats.day THEN {} ELSE {"stats.a"})
  \cup (IF o.stats.nodes = StatNodes(s) THEN {} ELSE {"stats.n"})

\* the configuration file: its meaning, and what happened to its text
AreaKw == {"IGNORESEENBY", "IGNOREDUPES", "DEFREADONLY", "MANDATORY", "UNCONFIRMED", "KEEPNUM", "KEEPDAYS", "GROUP", "DESCRIPTION", "BANNED",
           "EXPORT", "IMPORT", "AREA", "NETMAIL", "LOCALAREA"}
NodeKw == {"DEFAULTGROUP", "REMOTESYSOP", "REMOTEAF", "AREAFIXINFO", "NODE", "PKTFROM"}
CfgFacets(old, s, o) ==
  LET sameA(t) == LET i == FindArea(old.cfg, t) j == FindArea(s.cfg, t) IN i # 0 /\ j # 0 /\ old.cfg.areas[i] = s.cfg.areas[j]
      touched(l) == (l.kw \in AreaKw /\ l.area # "" /\ (~sameA(l.area) \/ Low(l.area) \in s.touch))
                    \/ (l.kw \in NodeKw /\ l.node # 0 /\ (old.cfg.nodes[l.node] # s.cfg.nodes[l.node] \/ PrintFull(s.cfg.nodes[l.node].a) \in s.touch))
      keep(x) == Map(LAMBDA l : l.t, SelectSeq(x, LAMBDA l : ~touched(l)))
  IN (IF o.cfg.areas = s.cfg.areas THEN {} ELSE {"cfg.areas"})
     \cup (IF o.cfg.nodes = s.cfg.nodes THEN {} ELSE {"cfg.nodes"})
     \cup (IF ~o.ptext.changed \/ (o.ptext.bak /\ s.changed) THEN {} ELSE {"cfg.bak"})
     \cup (IF ~o.ptext.changed \/ keep(o.ptext.old) = keep(o.ptext.new) THEN {} ELSE {"cfg.text"})

Facets(old, s, e) == LET o == e.obs IN
  OutFacets(s, o) \cup PlaceFacets(s, e, o) \cup StatFacets(s, o) \cup CfgFacets(old, s, o) \cup FlowFacet(s, o) \cup BaseFacets(s, o) \cup InbFacet(s, o) \cup DupeFacet(s, o)
  \cup (IF o.log = s.log THEN {} ELSE {"log"})
  \cup (IF "report" \notin DOMAIN e THEN {} ELSE IF ReportOk(s, e.report, o.rep) THEN {} ELSE {"stats.r"})
  \cup (IF "export" \notin DOMAIN e THEN {} ELSE IF ExportOk(s, e.export, o.exp) THEN {} ELSE {"exp"})
  \cup (IF e.op # "maint" THEN {} ELSE IF Carried(Edits(old, e), e, o.post) THEN {} ELSE {"carried"})
  \cup (IF e.op = "write" THEN WriteFacets(s, e) ELSE {})
  \cup (IF o.exit \in (IF e.op = "write" THEN WExit(e) ELSE {e.exit}) THEN {} ELSE {"exit"})

(* ------------------------------- behaviour ------------------------------ *)
InitSt(s) == [cfg |-> s.cfg, nl |-> [open |-> s.nl.type # "", type |-> s.nl.type, entries |-> NlEntries(s.nl.lists)], out |-> << >>, files |-> << >>, pend |-> << >>, dupes |-> << >>, inb |-> << >>, disk |-> s.disk,
              changed |-> FALSE, log |-> << >>, touch |-> {}, graves |-> << >>, order |-> << >>,
              bases |-> [i \in 1..Len(s.cfg.areas) |-> NewBase(s.cfg.areas[i].base)],
              an |-> [i \in 1..Len(s.cfg.areas) |-> 0], ad |-> [i \in 1..Len(s.cfg.areas) |-> 0],
              ns |-> [i \in 1..Len(s.cfg.nodes) |-> NodeStat0], ob |-> << >>, of |-> << >>, wait |-> << >>, waitf |-> << >>,
              arc |-> [i \in 1..Len(s.cfg.nodes) |-> [base |-> "", suf |-> 0, list |-> << >>]],
              stats |-> [day |-> 0, areas |-> [i \in 1..Len(s.cfg.areas) |-> AreaStat0], nfirst |-> [i \in 1..Len(s.cfg.nodes) |-> 0]]]

Init == /\ sc \in 1..Len(Scenarios)
        /\ k = 0
        /\ st = InitSt(Scenarios[sc])
        /\ fail = {}

Steps == Scenarios[sc].steps
Next == /\ fail = {}
        /\ k < Len(Steps)
        /\ k' = k + 1
        /\ sc' = sc
        /\ st' = Apply(st, Steps[k'])
        /\ fail' = Facets(st, st', Steps[k'])
        /\ IF fail' = {} THEN TRUE
           ELSE /\ PrintT("DIFF|" \o N(Scenarios[sc].id) \o "|" \o N(k') \o "|" \o JoinSep(SetToSeq(fail'), ","))
                /\ (Debug => JsonSerialize(IOEnv.CM_DEBUG \o "/" \o N(Scenarios[sc].id) \o "-" \o N(k') \o ".json", st'))

vars == <<sc, k, st, fail>>
Spec == Init /\ [][Next]_vars

OwnedSet == {Owned[i] : i \in 1..Len(Owned)}
Conforms == fail \cap OwnedSet = {}

\* what is printed for a counterexample
Short == [scenario |-> Scenarios[sc].id, step |-> k, fail |-> fail]
=============================================================================
