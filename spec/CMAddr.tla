------------------------------- MODULE CMAddr ------------------------------
(* FidoNet 4D addresses <<zone, net, node, point>> and address patterns.    *)
EXTENDS CMStr

Z(a) == a[1]   Nt(a) == a[2]   Nd(a) == a[3]   Pt(a) == a[4]
Null4 == <<0, 0, 0, 0>>

\* Zone 0 means "zone unknown" and matches every zone.
Same4(a, b) == /\ (a[1] = 0 \/ b[1] = 0 \/ a[1] = b[1])
               /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] = b[4]

Print4(a) == N(a[1]) \o ":" \o N(a[2]) \o "/" \o N(a[3])
             \o (IF a[4] # 0 THEN "." \o N(a[4]) ELSE "")
PrintFull(a) == N(a[1]) \o ":" \o N(a[2]) \o "/" \o N(a[3]) \o "." \o N(a[4])
Print3(a) == N(a[1]) \o ":" \o N(a[2]) \o "/" \o N(a[3])

P4Step(s, c) ==
  IF ~s.ok THEN s
  ELSE IF c = ":" THEN IF s.gz \/ s.gn \/ s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.a[1] = IF s.gv THEN U16(s.val) ELSE @, !.gz = TRUE, !.gv = FALSE]
  ELSE IF c = "/" THEN IF s.gn \/ s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.a[2] = IF s.gv THEN U16(s.val) ELSE @, !.gn = TRUE, !.gv = FALSE]
  ELSE IF c = "." THEN IF s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.a[3] = IF s.gv THEN U16(s.val) ELSE @, !.gf = TRUE, !.gv = FALSE]
  ELSE IF c \in Digits THEN [s EXCEPT !.val = IF s.gv THEN @ * 10 + DVal[c] ELSE DVal[c], !.gv = TRUE]
  ELSE [s EXCEPT !.ok = FALSE]

Parse4T(str, tpl) ==
  LET r == FoldStr(P4Step, [ok |-> TRUE, gz |-> FALSE, gn |-> FALSE, gf |-> FALSE,
                            gv |-> FALSE, val |-> 0, a |-> tpl], str)
      v == U16(r.val)
      a == IF ~r.gv THEN r.a
           ELSE IF r.gz /\ ~r.gn THEN [r.a EXCEPT ![2] = v]
           ELSE IF r.gf THEN [r.a EXCEPT ![4] = v]
           ELSE [r.a EXCEPT ![3] = v]
  IN [ok |-> r.ok, a |-> a]
Parse4(str) == Parse4T(str, Null4)

(* ----------------------------- patterns --------------------------------- *)
(* A pattern is [t, z, n, f, p]: t the kind, the others component patterns  *)
(* over digits, "?" (one digit) and "*" (any rest); "" matches anything.    *)
PatChars == Digits \cup {"*", "?"}
PPStep(s, c) ==
  IF ~s.ok THEN s
  ELSE IF c = ":" THEN IF s.gz \/ s.gn \/ s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.z = s.tmp, !.gz = TRUE, !.tmp = ""]
  ELSE IF c = "/" THEN IF s.gn \/ s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.n = s.tmp, !.gn = TRUE, !.tmp = ""]
  ELSE IF c = "." THEN IF s.gf THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.f = s.tmp, !.gf = TRUE, !.p = "", !.tmp = ""]
  ELSE IF c \in PatChars THEN [s EXCEPT !.tmp = IF Len(@) < 9 THEN @ \o c ELSE @]
  ELSE [s EXCEPT !.ok = FALSE]
RawPat(str) ==
  IF str = "*" THEN [ok |-> TRUE, z |-> "*", n |-> "*", f |-> "*", p |-> "*"]
  ELSE LET r == FoldStr(PPStep, [ok |-> TRUE, gz |-> FALSE, gn |-> FALSE, gf |-> FALSE, tmp |-> "",
                                 z |-> "*", n |-> "*", f |-> "*", p |-> "*"], str)
       IN IF r.gz /\ ~r.gn THEN [ok |-> r.ok, z |-> r.z, n |-> r.tmp, f |-> "*", p |-> "*"]
          ELSE IF r.gf THEN [ok |-> r.ok, z |-> r.z, n |-> r.n, f |-> r.f, p |-> r.tmp]
          ELSE [ok |-> r.ok, z |-> r.z, n |-> r.n, f |-> r.tmp, p |-> "0"]

ParsePat(str) ==
  IF StartsI(str, "ZONE ") THEN LET r == RawPat(From(str, 6)) IN [t |-> "ZONE", z |-> r.f, n |-> "", f |-> "", p |-> ""]
  ELSE IF StartsI(str, "REGION ") THEN LET r == RawPat(From(str, 8)) IN [t |-> "REGION", z |-> r.z, n |-> r.n, f |-> "", p |-> ""]
  ELSE IF StartsI(str, "NET ") THEN LET r == RawPat(From(str, 5)) IN [t |-> "NET", z |-> r.z, n |-> r.n, f |-> "", p |-> ""]
  ELSE IF StartsI(str, "HUB ") THEN LET r == RawPat(From(str, 5)) IN [t |-> "HUB", z |-> r.z, n |-> r.n, f |-> r.f, p |-> ""]
  ELSE IF StartsI(str, "NODE ") THEN LET r == RawPat(From(str, 6)) IN [t |-> "NODE", z |-> r.z, n |-> r.n, f |-> r.f, p |-> ""]
  ELSE LET r == RawPat(str) IN [t |-> "PAT", z |-> r.z, n |-> r.n, f |-> r.f, p |-> r.p]
ParseDestPat(str) ==
  IF Low(str) \in {"zone", "region", "net", "hub", "node"}
  THEN [t |-> (CASE Low(str)="zone" -> "ZONE" [] Low(str)="region" -> "REGION" [] Low(str)="net" -> "NET"
                 [] Low(str)="hub" -> "HUB" [] Low(str)="node" -> "NODE"), z |-> "", n |-> "", f |-> "", p |-> ""]
  ELSE LET r == RawPat(str) IN [t |-> "PAT", z |-> r.z, n |-> r.n, f |-> r.f, p |-> r.p]

\* component pattern against the decimal numeral of num
RECURSIVE NCmp(_, _, _)
NCmp(pat, b, i) ==
  IF i > Len(pat) THEN i > Len(b)
  ELSE IF At(pat, i) = "*" THEN TRUE
  ELSE IF i > Len(b) THEN FALSE
  ELSE (At(pat, i) = "?" \/ At(pat, i) = At(b, i)) /\ NCmp(pat, b, i + 1)
NodeCmp(pat, num) == pat = "" \/ NCmp(pat, N(num), 1)

(* nl: nodelist view, a function-like record [open, region(a), hub(a)] is   *)
(* passed as a sequence of entries [a |-> addr, region |-> r, hub |-> h].   *)
NlFind(nl, a) == First(nl.entries, LAMBDA e : e.a = <<a[1], a[2], a[3], 0>>)
NlRegion(nl, a) == LET i == NlFind(nl, a) IN IF i = 0 THEN -1 ELSE nl.entries[i].region
NlHub(nl, a) == LET i == NlFind(nl, a) IN IF i = 0 THEN -1 ELSE nl.entries[i].hub

MatchPat(p, a, nl) ==
  LET zok == a[1] = 0 \/ NodeCmp(p.z, a[1]) IN
  CASE p.t = "PAT"    -> zok /\ NodeCmp(p.n, a[2]) /\ NodeCmp(p.f, a[3]) /\ NodeCmp(p.p, a[4])
    [] p.t = "ZONE"   -> NodeCmp(p.z, a[1])
    [] p.t = "REGION" -> nl.open /\ NlRegion(nl, a) # -1 /\ zok /\ NodeCmp(p.n, NlRegion(nl, a))
    [] p.t = "NET"    -> zok /\ NodeCmp(p.n, a[2])
    [] p.t = "HUB"    -> nl.open /\ NlHub(nl, a) # -1 /\ zok /\ NodeCmp(p.n, a[2]) /\ NodeCmp(p.f, NlHub(nl, a))
    [] p.t = "NODE"   -> zok /\ NodeCmp(p.n, a[2]) /\ NodeCmp(p.f, a[3])

IsWild(s) == HasChar(s, "*") \/ HasChar(s, "?")
ExpandPat(p, d, nl) ==
  LET reg0 == IF nl.open /\ p.t = "REGION" THEN NlRegion(nl, d) ELSE 0
      reg1 == IF reg0 = -1 \/ reg0 = 0 THEN d[2] ELSE reg0
      hub0 == IF nl.open /\ p.t = "HUB" THEN NlHub(nl, d) ELSE 0
      hub1 == IF hub0 = -1 THEN 0 ELSE hub0
      comp(s, v) == IF IsWild(s) THEN v ELSE U16(Atoi(s))
  IN CASE p.t = "PAT"    -> <<comp(p.z, d[1]), comp(p.n, d[2]), comp(p.f, d[3]), comp(p.p, d[4])>>
       [] p.t = "ZONE"   -> <<d[1], d[1], 0, 0>>
       [] p.t = "REGION" -> <<d[1], reg1, 0, 0>>
       [] p.t = "NET"    -> <<d[1], d[2], 0, 0>>
       [] p.t = "HUB"    -> <<d[1], d[2], hub1, 0>>
       [] p.t = "NODE"   -> <<d[1], d[2], d[3], 0>>

Parse2DPat(str) ==
  IF str = "*" THEN [n |-> "*", f |-> "*"]
  ELSE LET i == Find(str, "/", 1)
       IN IF i = 0 THEN [n |-> "*", f |-> Take(str, 9)]
          ELSE [n |-> Take(Sub(str, 1, i - 1), 9), f |-> Take(From(str, i + 1), 9)]
Match2D(p, net, node) == NodeCmp(p.n, net) /\ NodeCmp(p.f, node)
=============================================================================
