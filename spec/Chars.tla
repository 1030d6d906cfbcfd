------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points (Int).  Character classes are *)
(* those of the CommonMark 0.29 standard (spec.txt, "Characters and        *)
(* lines").                                                                *)
(***************************************************************************)
EXTENDS Data

AsciiGraph == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* The code points of an ASCII TLA+ string (only ever applied to constants).
S(str) == [i \in 1..Len(str) |->
             31 + (CHOOSE j \in 1..95 : SubSeq(AsciiGraph, j, j) = SubSeq(str, i, i))] \o <<>>

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

TAB == 9   LF == 10   CR == 13   SP == 32
Digits   == 48..57
Lower    == 97..122
Upper    == 65..90
Alpha    == Lower \cup Upper
Alnum    == Alpha \cup Digits
Hex      == Digits \cup (65..70) \cup (97..102)
SpTab    == {SP, TAB}
Ws       == {SP, TAB, LF, 11, 12, CR}          \* "whitespace character"
AsciiPunct == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
Punct    == AsciiPunct \cup UniPunct
\* Unicode whitespace: Zs, tab, LF, FF, CR (VT is treated alike).
UniWs    == {TAB, LF, 11, 12, CR, SP, 160, 5760, 8239, 8287, 12288} \cup (8192..8202)

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1     \* -1: no character

RECURSIVE Skip(_, _, _)
\* first index >= i whose character is not in A
Skip(s, i, A) == IF i <= Len(s) /\ s[i] \in A THEN Skip(s, i + 1, A) ELSE i

RECURSIVE SkipTo(_, _, _)
\* first index >= i whose character is in A (Len(s)+1 if none)
SkipTo(s, i, A) == IF i <= Len(s) /\ s[i] \notin A THEN SkipTo(s, i + 1, A) ELSE i

RECURSIVE SkipC(_, _, _)
SkipC(s, i, c) == IF i <= Len(s) /\ s[i] = c THEN SkipC(s, i + 1, c) ELSE i

RECURSIVE BackTo(_, _, _)
\* last index <= i whose character is not in A (0 if none)
BackTo(s, i, A) == IF i >= 1 /\ s[i] \in A THEN BackTo(s, i - 1, A) ELSE i

From(s, i) == SubSeq(s, i, Len(s))
Trim(s, A) == LET b == Skip(s, 1, A) IN SubSeq(s, b, BackTo(s, Len(s), A))
AllIn(s, A) == Skip(s, 1, A) > Len(s)

StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

RECURSIVE Find(_, _, _)
\* first index >= i at which p occurs in s, 0 if none
Find(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0
                 ELSE IF s[i] = p[1] /\ StartsAt(s, i, p) THEN i
                 ELSE Find(s, i + 1, p)

LowerC(c) == IF c \in Upper THEN c + 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> LowerC(s[i])] \o <<>>

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)

RECURSIVE IntS(_)
IntS(n) == IF n < 10 THEN <<48 + n>> ELSE IntS(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE NumOf(_, _, _)
NumOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NumOf(s, i + 1, acc * 10 + (s[i] - 48))

HexV(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE HexOf(_, _, _)
HexOf(s, i, acc) == IF i > Len(s) THEN acc ELSE HexOf(s, i + 1, acc * 16 + HexV(s[i]))

\* Unicode full case folding
FoldC(c) == IF c \in Upper THEN <<c + 32>> ELSE IF c \in FoldDom THEN FoldTab[c] ELSE <<c>>
RECURSIVE FoldS(_, _)
FoldS(s, i) == IF i > Len(s) THEN <<>> ELSE FoldC(s[i]) \o FoldS(s, i + 1)
=============================================================================
