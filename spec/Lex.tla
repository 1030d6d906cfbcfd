-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Recognisers for the lexical constructs of CommonMark 0.29.  A recogniser*)
(* takes a text and an index and returns the index just after the          *)
(* construct, or 0 when the construct is not there.                        *)
(***************************************************************************)
EXTENDS Lines

------------------------------------------------------ (* raw HTML *)
AttrStart == Alpha \cup {95, 58}
AttrChar  == Alnum \cup {95, 46, 58, 45}
UnqStop   == {34, 39, 61, 60, 62, 96} \cup (0..32)
TagChar   == Alnum \cup {45}

TagName(s, i) == IF At(s, i) \in Alpha THEN Skip(s, i, TagChar) ELSE 0

AttrValue(s, i) ==
  LET c == At(s, i) IN
  IF c \in {34, 39} THEN LET e == SkipTo(s, i + 1, {c}) IN IF e > Len(s) THEN 0 ELSE e + 1
  ELSE IF c = -1 \/ c \in UnqStop THEN 0
  ELSE SkipTo(s, i, UnqStop)

RECURSIVE TagTail(_, _)
\* zero or more attributes, whitespace, optional slash, ">"
TagTail(s, i) ==
  LET j == Skip(s, i, Ws) IN
  IF j > i /\ At(s, j) \in AttrStart
  THEN LET e == Skip(s, j, AttrChar)
           q == Skip(s, e, Ws)
       IN IF At(s, q) = 61
          THEN LET v == AttrValue(s, Skip(s, q + 1, Ws)) IN IF v = 0 THEN 0 ELSE TagTail(s, v)
          ELSE TagTail(s, e)
  ELSE LET t == IF At(s, j) = 47 THEN j + 1 ELSE j
       IN IF At(s, t) = 62 THEN t + 1 ELSE 0

OpenTag(s, i) ==
  IF At(s, i) # 60 THEN 0
  ELSE LET n == TagName(s, i + 1) IN IF n = 0 THEN 0 ELSE TagTail(s, n)
CloseTag(s, i) ==
  IF At(s, i) # 60 \/ At(s, i + 1) # 47 THEN 0
  ELSE LET n == TagName(s, i + 2)
       IN IF n = 0 THEN 0
          ELSE LET j == Skip(s, n, Ws) IN IF At(s, j) = 62 THEN j + 1 ELSE 0

LitCmt0 == S("<!---->")  LitCmt == S("<!--")  LitCmtE == S("-->")  LitDD == S("--")
LitPIs == S("<?")  LitPIe == S("?>")  LitCD == S("<![CDATA[")  LitCDe == S("]]>")
LitArrow == S("->")

Comment(s, i) ==
  IF StartsAt(s, i, LitCmt0) THEN i + 7
  ELSE IF ~StartsAt(s, i, LitCmt) THEN 0
  ELSE LET j == Find(s, i + 4, LitDD)
       IN IF j <= i + 4 \/ s[i + 4] = 62 \/ StartsAt(s, i + 4, LitArrow) \/ ~StartsAt(s, j, LitCmtE)
          THEN 0 ELSE j + 3
PI(s, i) == IF ~StartsAt(s, i, LitPIs) THEN 0
            ELSE LET j == Find(s, i + 2, LitPIe) IN IF j = 0 THEN 0 ELSE j + 2
\* (name in either case, as the reference implementations have it)
Decl(s, i) ==
  IF At(s, i) # 60 \/ At(s, i + 1) # 33 \/ At(s, i + 2) \notin Alpha THEN 0
  ELSE LET n == Skip(s, i + 2, Alpha)
           w == Skip(s, n, Ws)
           e == SkipTo(s, w, {62})
       IN IF w = n \/ e > Len(s) THEN 0 ELSE e + 1
CData(s, i) ==
  IF ~StartsAt(s, i, LitCD) THEN 0
  ELSE LET j == Find(s, i + 9, LitCDe) IN IF j = 0 THEN 0 ELSE j + 3

FirstOf(a, b, c, d, e, f) ==
  IF a > 0 THEN a ELSE IF b > 0 THEN b ELSE IF c > 0 THEN c
  ELSE IF d > 0 THEN d ELSE IF e > 0 THEN e ELSE f
HtmlTag(s, i) ==
  FirstOf(OpenTag(s, i), CloseTag(s, i), Comment(s, i), PI(s, i), Decl(s, i), CData(s, i))

------------------------------------------------------ (* autolinks *)
SchemeChar == Alnum \cup {46, 43, 45}
UriStop    == {60, 62} \cup (0..32)
UriAuto(s, i) ==
  IF At(s, i) # 60 \/ At(s, i + 1) \notin Alpha THEN 0
  ELSE LET c == Skip(s, i + 1, SchemeChar)        \* scheme is i+1 .. c-1
           e == SkipTo(s, c + 1, UriStop)
       IN IF c - i - 1 \in 2..32 /\ At(s, c) = 58 /\ At(s, e) = 62 THEN e + 1 ELSE 0
LocalChar == Alnum \cup {46, 33, 35, 36, 37, 38, 39, 42, 43, 47, 61, 63, 94, 95, 96,
                         123, 124, 125, 126, 45}
RECURSIVE DomainAt(_, _)
\* dot-separated labels of 1 to 63 letters, digits, hyphens (not at the ends)
DomainAt(s, i) ==
  LET e == Skip(s, i, TagChar) IN
  IF e - i \notin 1..63 \/ s[i] = 45 \/ s[e - 1] = 45 THEN 0
  ELSE IF At(s, e) = 46 THEN DomainAt(s, e + 1)
  ELSE IF At(s, e) = 62 THEN e + 1 ELSE 0
EmailAuto(s, i) ==
  IF At(s, i) # 60 THEN 0
  ELSE LET a == Skip(s, i + 1, LocalChar)
       IN IF a = i + 1 \/ At(s, a) # 64 THEN 0 ELSE DomainAt(s, a + 1)

------------------------------------------------------ (* entities *)
EntName(nm) == IF nm \in EntDom THEN EntTab[nm] ELSE <<>>
CodePoint(n) == IF n = 0 \/ n > 1114111 \/ n \in 55296..57343 THEN 65533 ELSE n

\* [n |-> index after the reference, or 0; v |-> its text]
NoEnt == [n |-> 0, v |-> <<>>]
EntityAt(s, i) ==
  IF At(s, i) # 38 THEN NoEnt
  ELSE IF At(s, i + 1) = 35
  THEN IF At(s, i + 2) \in {120, 88}
       THEN LET e == Skip(s, i + 3, Hex)
            IN IF e - i - 3 \in 1..6 /\ At(s, e) = 59
               THEN [n |-> e + 1, v |-> <<CodePoint(HexOf(SubSeq(s, i + 3, e - 1), 1, 0))>>]
               ELSE NoEnt
       ELSE LET e == Skip(s, i + 2, Digits)
            IN IF e - i - 2 \in 1..7 /\ At(s, e) = 59
               THEN [n |-> e + 1, v |-> <<CodePoint(NumOf(SubSeq(s, i + 2, e - 1), 1, 0))>>]
               ELSE NoEnt
  ELSE IF At(s, i + 1) \notin Alpha THEN NoEnt
  ELSE LET e == Skip(s, i + 1, Alnum)
           v == IF At(s, e) = 59 THEN EntName(SubSeq(s, i + 1, e - 1)) ELSE <<>>
       IN IF v = <<>> THEN NoEnt ELSE [n |-> e + 1, v |-> v]

RECURSIVE UnescFrom(_, _)
UnescFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 92 /\ At(s, i + 1) \in AsciiPunct THEN <<s[i + 1]>> \o UnescFrom(s, i + 2)
  ELSE IF s[i] = 38 THEN LET e == EntityAt(s, i)
                         IN IF e.n = 0 THEN <<38>> \o UnescFrom(s, i + 1)
                            ELSE e.v \o UnescFrom(s, e.n)
  ELSE LET j == SkipTo(s, i, {92, 38})
           k == IF j = i THEN i + 1 ELSE j
       IN SubSeq(s, i, k - 1) \o UnescFrom(s, k)
\* backslash escapes and entities resolved
Unescape(s) == UnescFrom(s, 1)

------------------------------------------------------ (* URIs *)
UriKeep == Alnum \cup {95, 46, 45, 126} \cup          \* unreserved
           {59, 47, 64, 58, 43, 63, 61, 38, 40, 41, 37, 35, 42, 44}
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Pct(b) == <<37, HexD(b \div 16), HexD(b % 16)>>
Utf8(c) == IF c < 128 THEN Pct(c)
           ELSE IF c < 2048 THEN Pct(192 + c \div 64) \o Pct(128 + (c % 64))
           ELSE IF c < 65536 THEN Pct(224 + c \div 4096) \o Pct(128 + ((c \div 64) % 64)) \o Pct(128 + (c % 64))
           ELSE Pct(240 + c \div 262144) \o Pct(128 + ((c \div 4096) % 64))
                \o Pct(128 + ((c \div 64) % 64)) \o Pct(128 + (c % 64))
RECURSIVE UriFrom(_, _)
UriFrom(s, i) == IF i > Len(s) THEN <<>>
                 ELSE LET j == Skip(s, i, UriKeep)
                      IN IF j > i THEN SubSeq(s, i, j - 1) \o UriFrom(s, j)
                         ELSE Utf8(s[i]) \o UriFrom(s, i + 1)
NormUri(s) == UriFrom(s, 1)

------------------------------------------------------ (* links *)
RECURSIVE LabelEnd(_, _)
LabelEnd(s, i) ==
  LET j == SkipTo(s, i, {92, 91, 93}) IN
  IF j > Len(s) THEN 0
  ELSE IF s[j] = 93 THEN j
  ELSE IF s[j] = 91 THEN 0
  ELSE IF j + 1 > Len(s) THEN 0 ELSE LabelEnd(s, j + 2)
\* "[" ... "]" of at most 999 characters
LinkLabel(s, i) ==
  IF At(s, i) # 91 THEN 0
  ELSE LET e == LabelEnd(s, i + 1) IN IF e = 0 \/ e - i - 1 > 999 THEN 0 ELSE e + 1

\* normal form of a label without its brackets
RECURSIVE Collapse(_, _)
Collapse(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Ws THEN <<SP>> \o Collapse(s, Skip(s, i, Ws))
  ELSE LET j == SkipTo(s, i, Ws) IN SubSeq(s, i, j - 1) \o Collapse(s, j)
NormLabel(s) == FoldS(Collapse(Trim(s, Ws), 1), 1)

NoStr == [n |-> 0, v |-> <<>>]
RECURSIVE AngleEnd(_, _)
AngleEnd(s, i) ==
  LET j == SkipTo(s, i, {60, 62, LF, 92}) IN
  IF j > Len(s) THEN 0
  ELSE IF s[j] = 62 THEN j
  ELSE IF s[j] = 92 THEN IF j + 1 > Len(s) \/ s[j + 1] = LF THEN 0 ELSE AngleEnd(s, j + 2)
  ELSE 0
BareStop == {92, 40, 41, 127} \cup 0..32             \* with the control characters
RECURSIVE BareEnd(_, _, _)
\* end of a bare destination: parentheses balanced, no whitespace or control character
BareEnd(s, i, d) ==
  LET j == SkipTo(s, i, BareStop) IN
  IF j > Len(s) THEN IF d = 0 THEN j ELSE 0
  ELSE IF s[j] = 92 THEN BareEnd(s, IF At(s, j + 1) \in AsciiPunct THEN j + 2 ELSE j + 1, d)
  ELSE IF s[j] = 40 THEN BareEnd(s, j + 1, d + 1)
  ELSE IF s[j] = 41 /\ d > 0 THEN BareEnd(s, j + 1, d - 1)
  ELSE IF d = 0 THEN j ELSE 0
LinkDest(s, i) ==
  IF At(s, i) = 60
  THEN LET e == AngleEnd(s, i + 1)
       IN IF e = 0 THEN NoStr
          ELSE [n |-> e + 1, v |-> NormUri(Unescape(SubSeq(s, i + 1, e - 1)))]
  ELSE LET e == BareEnd(s, i, 0)
       IN IF e = 0 \/ (e = i /\ At(s, i) # 41) THEN NoStr
          ELSE [n |-> e, v |-> NormUri(Unescape(SubSeq(s, i, e - 1)))]

RECURSIVE TitleEnd(_, _, _)
TitleEnd(s, i, stop) ==
  LET j == SkipTo(s, i, stop) IN
  IF j > Len(s) THEN 0
  ELSE IF s[j] = 92 THEN TitleEnd(s, IF At(s, j + 1) \in AsciiPunct THEN j + 2 ELSE j + 1, stop)
  ELSE j
LinkTitle(s, i) ==
  LET c == At(s, i) IN
  IF c \in {34, 39}
  THEN LET e == TitleEnd(s, i + 1, {92, c})
       IN IF e = 0 THEN NoStr ELSE [n |-> e + 1, v |-> Unescape(SubSeq(s, i + 1, e - 1))]
  ELSE IF c = 40
  THEN LET e == TitleEnd(s, i + 1, {92, 40, 41})
       IN IF e = 0 \/ s[e] = 40 THEN NoStr
          ELSE [n |-> e + 1, v |-> Unescape(SubSeq(s, i + 1, e - 1))]
  ELSE NoStr

\* whitespace with at most one line ending
Spnl(s, i) == LET j == Skip(s, i, SpTab)
              IN IF At(s, j) = LF THEN Skip(s, j + 1, SpTab) ELSE j
\* index after the end of the line if only blanks precede it, else 0
LineEnd(s, i) == LET j == Skip(s, i, SpTab)
                 IN IF j > Len(s) THEN j ELSE IF s[j] = LF THEN j + 1 ELSE 0

NoRef == [n |-> 0, lab |-> <<>>, dest |-> <<>>, title |-> <<>>]
\* A link reference definition at the beginning of s.
RefDef(s) ==
  LET l == LinkLabel(s, 1) IN
  IF l <= 3 \/ At(s, l) # 58 THEN NoRef
  ELSE LET lab == NormLabel(SubSeq(s, 2, l - 2))
           d == LinkDest(s, Spnl(s, l + 1))
       IN IF d.n = 0 \/ lab = <<>> THEN NoRef
          ELSE LET ts == Spnl(s, d.n)
                   t == IF ts > d.n THEN LinkTitle(s, ts) ELSE NoStr
                   e1 == IF t.n > 0 THEN LineEnd(s, t.n) ELSE 0
                   e2 == LineEnd(s, d.n)
               IN IF e1 > 0 THEN [n |-> e1, lab |-> lab, dest |-> d.v, title |-> t.v]
                  ELSE IF e2 > 0 THEN [n |-> e2, lab |-> lab, dest |-> d.v, title |-> <<>>]
                  ELSE NoRef
=============================================================================
