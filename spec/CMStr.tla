------------------------------- MODULE CMStr -------------------------------
(* Byte strings.  A TLA+ string stands for a sequence of bytes 1..255 (one  *)
(* latin-1 character per byte).  Chr is the table of one-character strings: *)
(* Chr[i+1] is byte i.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Chr == JsonDeserialize(IOEnv.CM_CHR)

NUL == Chr[1]   SOH == Chr[2]   TAB == Chr[10]
LF  == Chr[11]  CR  == Chr[14]  SP  == " "

Code == [c \in {Chr[i] : i \in 1..256} |-> (CHOOSE i \in 1..256 : Chr[i] = c) - 1]

At(s, i)    == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
From(s, i)  == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Take(s, n)  == IF Len(s) <= n THEN s ELSE IF n <= 0 THEN "" ELSE SubSeq(s, 1, n)
TakeSeq(s, n)  == IF Len(s) <= n THEN s ELSE IF n <= 0 THEN << >> ELSE SubSeq(s, 1, n)
Chars(s)    == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
FoldStr(op(_,_), base, s) == FoldLeft(op, base, Chars(s))

Starts(s, p) == Len(s) >= Len(p) /\ (Len(p) = 0 \/ SubSeq(s, 1, Len(p)) = p)
Ends(s, p)   == Len(s) >= Len(p) /\ (Len(p) = 0 \/ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p)

UpStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LoStr == "abcdefghijklmnopqrstuvwxyz"
UpSet == {SubSeq(UpStr, i, i) : i \in 1..26}
ToLo  == [c \in UpSet |-> LET i == CHOOSE i \in 1..26 : SubSeq(UpStr, i, i) = c IN SubSeq(LoStr, i, i)]
LowC(c) == IF c \in UpSet THEN ToLo[c] ELSE c

Cat(a, b) == a \o b
\* balanced concatenation keeps long joins cheap
RECURSIVE JoinR(_, _, _)
JoinR(ss, i, j) == IF j < i THEN "" ELSE IF i = j THEN ss[i]
                   ELSE LET m == (i + j) \div 2 IN JoinR(ss, i, m) \o JoinR(ss, m + 1, j)
Join(ss) == JoinR(ss, 1, Len(ss))
JoinSep(ss, sep) == IF Len(ss) = 0 THEN ""
                    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))
Low(s) == IF \A i \in 1..Len(s) : SubSeq(s, i, i) \notin UpSet THEN s
          ELSE Join([i \in 1..Len(s) |-> LowC(SubSeq(s, i, i))])
EqI(a, b) == Len(a) = Len(b) /\ (a = b \/ Low(a) = Low(b))          \* stricmp = 0
StartsI(s, p) == Len(s) >= Len(p) /\ EqI(Take(s, Len(p)), p)         \* strnicmp = 0

\* first position >= i of character set cs in s, or Len(s)+1
RECURSIVE Scan(_, _, _)
Scan(s, i, cs) == IF i > Len(s) THEN Len(s) + 1
                  ELSE IF SubSeq(s, i, i) \in cs THEN i ELSE Scan(s, i + 1, cs)
RECURSIVE Skip(_, _, _)
Skip(s, i, cs) == IF i > Len(s) THEN Len(s) + 1
                  ELSE IF SubSeq(s, i, i) \notin cs THEN i ELSE Skip(s, i + 1, cs)

\* position of substring p in s at or after i, or 0
RECURSIVE Find(_, _, _)
Find(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE Find(s, p, i + 1)
HasSub(s, p) == Len(p) = 0 \/ Find(s, p, 1) > 0
HasChar(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c

Digits == {"0","1","2","3","4","5","6","7","8","9"}
DVal == [c \in Digits |-> CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4
                            [] c="5"->5 [] c="6"->6 [] c="7"->7 [] c="8"->8 [] c="9"->9]
IsDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
Num(s) == FoldStr(LAMBDA a, c : a * 10 + DVal[c], 0, s)              \* digits only
\* atoi: leading blanks, optional sign ignored (never generated), then digits
Atoi(s) == LET b == Skip(s, 1, {" ", TAB, CR, LF})
               e == Skip(s, b, Digits)
           IN IF e = b THEN 0 ELSE Num(Sub(s, b, e - 1))
U16(n) == n % 65536

\* characters below 33 (blank and control)
LowSet == {Chr[i] : i \in 2..33}
RECURSIVE RTrimIdx(_, _)
RTrimIdx(s, i) == IF i >= 1 /\ SubSeq(s, i, i) \in LowSet THEN RTrimIdx(s, i - 1) ELSE i
StripTrail(s) == LET i == RTrimIdx(s, Len(s)) IN Sub(s, 1, i)
StripLead(s)  == From(s, Skip(s, 1, {" "}))
StripLeadTrail(s) == StripTrail(StripLead(s))

\* split on blanks (and tabs), dropping empty tokens
RECURSIVE TokR(_, _, _)
TokR(s, i, cs) == LET b == Skip(s, i, cs)
                      e == Scan(s, b, cs)
                  IN IF b > Len(s) THEN << >>
                     ELSE <<Sub(s, b, e - 1)>> \o TokR(s, e, cs)
Tokens(s, cs) == TokR(s, 1, cs)

N(x) == ToString(x)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Hex(_)
Hex(x) == (IF x < 16 THEN "" ELSE Hex(x \div 16)) \o HexD[(x % 16) + 1]
Hex3(x) == (IF x < 16 THEN "00" ELSE IF x < 256 THEN "0" ELSE "") \o Hex(x)
Pad2(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x
First(s, P(_)) == LET Idx == {i \in 1..Len(s) : P(s[i])}
                  IN IF Idx = {} THEN 0 ELSE CHOOSE i \in Idx : \A j \in Idx : i <= j
LastIdx(s, P(_)) == LET Idx == {i \in 1..Len(s) : P(s[i])}
                  IN IF Idx = {} THEN 0 ELSE CHOOSE i \in Idx : \A j \in Idx : i >= j
\* lines with their terminators
RECURSIVE SplitLines(_, _)
SplitLines(s, i) == IF i > Len(s) THEN << >>
                    ELSE LET e == Scan(s, i, {CR, LF})
                             f == IF e > Len(s) THEN Len(s) ELSE e
                         IN <<Sub(s, i, f)>> \o SplitLines(s, f + 1)
\* lines without their LF
RECURSIVE SplitLF(_, _)
SplitLF(s, i) == IF i > Len(s) THEN << >>
                 ELSE LET e == Scan(s, i, {LF}) IN <<Sub(s, i, e - 1)>> \o SplitLF(s, e + 1)
\* what follows the comma after the n-th non-empty field of s
RECURSIVE AfterField(_, _, _)
AfterField(s, i, n) == LET b == Skip(s, i, {","})  e == Scan(s, b, {","})
                       IN IF b > Len(s) \/ e > Len(s) THEN "" ELSE IF n = 1 THEN From(s, e + 1) ELSE AfterField(s, e + 1, n - 1)
\* one argument of a command line or configuration line, starting at position p: blanks are skipped, quotes
\* enclose blanks, a backslash takes the next character literally; cut to max - 1 characters
RECURSIVE JbEnd(_, _, _, _)
JbEnd(s, i, stops, acc) ==
  LET c == At(s, i) IN
  IF i > Len(s) \/ c \in stops \/ c = LF THEN [tok |-> acc, pos |-> i]
  ELSE IF c = "\\" /\ i < Len(s) /\ At(s, i + 1) # LF THEN JbEnd(s, i + 2, stops, acc \o At(s, i + 1))
  ELSE JbEnd(s, i + 1, stops, acc \o c)
JbTok(s, p, max) ==
  LET b == Skip(s, p, {" ", TAB})
      qt == At(s, b) = "\""
      r == JbEnd(s, IF qt THEN b + 1 ELSE b, IF qt THEN {"\""} ELSE {" ", TAB}, "")
  IN [ok |-> qt \/ r.tok # "", tok |-> Take(r.tok, max - 1), pos |-> IF At(s, r.pos) \in {" ", TAB, "\""} THEN r.pos + 1 ELSE r.pos]
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN " " ELSE LET h == Blanks(n \div 2) IN h \o h \o (IF n % 2 = 1 THEN " " ELSE "")
PadR(s, n) == s \o Blanks(n - Len(s))
PadL(s, n) == Blanks(n - Len(s)) \o s
\* case-insensitive order
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE IF SubSeq(a, i, i) = SubSeq(b, i, i) THEN LessFrom(a, b, i + 1)
                     ELSE Code[SubSeq(a, i, i)] < Code[SubSeq(b, i, i)]
LessI(a, b) == LessFrom(Low(a), Low(b), 1)
=============================================================================
