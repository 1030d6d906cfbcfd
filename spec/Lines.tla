------------------------------- MODULE Lines -------------------------------
(* Splitting a document into lines; NUL replacement; virtual columns.       *)
EXTENDS Chars

\* A line ending is LF, CR or CRLF.  The text after the last line ending is a
\* line only if it is not empty (or if it is the whole document).
RECURSIVE SplitFrom(_, _)
SplitFrom(d, i) ==
  LET e == SkipTo(d, i, {LF, CR})
      l == SubSeq(d, i, e - 1)
  IN IF e > Len(d) THEN IF l = <<>> THEN <<>> ELSE <<l>>
     ELSE <<l>> \o SplitFrom(d, IF d[e] = CR /\ At(d, e + 1) = LF THEN e + 2 ELSE e + 1)
NoNul(l) == [i \in 1..Len(l) |-> IF l[i] = 0 THEN 65533 ELSE l[i]] \o <<>>
SplitLines(d) == IF d = <<>> THEN << <<>> >> ELSE SplitFrom(d, 1)

(* A cursor in a line: i next character, c its virtual column (from 0),     *)
(* p: the character at i is a tab that has been consumed in part.           *)
Cur0 == [i |-> 1, c |-> 0, p |-> FALSE]

RECURSIVE NS(_, _, _)
\* index and column of the next character that is not space or tab
NS(L, i, c) == IF i > Len(L) THEN [i |-> i, c |-> c]
               ELSE IF L[i] = SP THEN NS(L, i + 1, c + 1)
               ELSE IF L[i] = TAB THEN NS(L, i + 1, c + 4 - (c % 4))
               ELSE [i |-> i, c |-> c]

RECURSIVE AdvCols(_, _, _)
AdvCols(L, k, n) ==
  IF n <= 0 \/ k.i > Len(L) THEN k
  ELSE IF L[k.i] = TAB
       THEN LET w == 4 - (k.c % 4)
            IN IF w > n THEN [i |-> k.i, c |-> k.c + n, p |-> TRUE]
               ELSE AdvCols(L, [i |-> k.i + 1, c |-> k.c + w, p |-> FALSE], n - w)
       ELSE AdvCols(L, [i |-> k.i + 1, c |-> k.c + 1, p |-> FALSE], n - 1)

\* the rest of the line from the cursor, a partly consumed tab as spaces
RestOf(L, k) == IF k.p THEN Rep(SP, 4 - (k.c % 4)) \o From(L, k.i + 1) ELSE From(L, k.i)
=============================================================================
