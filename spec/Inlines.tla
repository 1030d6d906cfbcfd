------------------------------ MODULE Inlines ------------------------------
(***************************************************************************)
(* Phase 2 of CommonMark: the inline structure of one leaf block, as a     *)
(* machine that consumes one token per step.                               *)
(*                                                                         *)
(*   s, p    the subject and the index of the next character               *)
(*   out     inlines produced so far                                       *)
(*   ds      delimiter stack (runs of * or _, and quotes in smart mode)    *)
(*   bs      bracket stack                                                 *)
(*   u       number of inlines created (gives each a name)                 *)
(*                                                                         *)
(* Emphasis is resolved by exhaustive search among the openers: none of    *)
(* the search bounds the implementation uses to save time.                 *)
(***************************************************************************)
EXTENDS Lex

It(u, t, lit) == [u |-> u, t |-> t, lit |-> lit, dest |-> <<>>, title |-> <<>>, kids |-> <<>>, au |-> FALSE]

InlInit(raw, smart) ==
  [s |-> Trim(raw, Ws), p |-> 1, out |-> <<>>, ds |-> <<>>, bs |-> <<>>, u |-> 0, smart |-> smart]
InlDone(x) == x.p > Len(x.s)

Put(x, t, lit, p) == [x EXCEPT !.out = Append(@, It(x.u + 1, t, lit)), !.u = @ + 1, !.p = p]
RECURSIVE IxFrom(_, _, _)
IxFrom(out, u, k) == IF out[k].u = u THEN k ELSE IxFrom(out, u, k - 1)
Ix(out, u) == IxFrom(out, u, Len(out))

---------------------------------------------------------- (* emphasis *)
\* rules 9 and 10: the sum of the lengths must not be a multiple of 3 unless
\* both are, when one of the runs can both open and close
Odd(o, c) == (o.cl \/ c.co) /\ (o.o + c.o) % 3 = 0 /\ ~(o.o % 3 = 0 /\ c.o % 3 = 0)
RECURSIVE OpenerFor(_, _, _, _)
OpenerFor(ds, j, i, b) ==
  IF j <= b THEN 0
  ELSE IF ds[j].cc = ds[i].cc /\ ds[j].co /\ ~Odd(ds[j], ds[i]) THEN j
  ELSE OpenerFor(ds, j - 1, i, b)

RECURSIVE Emph(_, _, _, _, _)
\* i: next potential closer; b: the part of the delimiter stack left alone
Emph(out, ds, u, i, b) ==
  IF i > Len(ds) THEN [out |-> out, ds |-> SubSeq(ds, 1, b), u |-> u]
  ELSE IF ~ds[i].cl THEN Emph(out, ds, u, i + 1, b)
  ELSE
  LET c == ds[i]
      j == OpenerFor(ds, i - 1, i, b)
      ci == Ix(out, c.u)
  IN
  IF c.cc \in {34, 39} THEN
    LET o1 == [out EXCEPT ![ci].lit = IF c.cc = 39 THEN <<8217>> ELSE <<8221>>]
        o2 == IF j = 0 THEN o1
              ELSE [o1 EXCEPT ![Ix(out, ds[j].u)].lit = IF c.cc = 39 THEN <<8216>> ELSE <<8220>>]
    IN Emph(o2, ds, u, i + 1, b)
  ELSE IF j = 0 THEN Emph(out, ds, u, i + 1, b)
  ELSE
  LET o == ds[j]
      n == IF c.n >= 2 /\ o.n >= 2 THEN 2 ELSE 1
      oi == Ix(out, o.u)
      node == [It(u + 1, IF n = 2 THEN "strong" ELSE "emph", <<>>)
                 EXCEPT !.kids = SubSeq(out, oi + 1, ci - 1)]
      pre == IF o.n > n THEN SubSeq(out, 1, oi - 1) \o <<[out[oi] EXCEPT !.lit = Rep(o.cc, o.n - n)]>>
             ELSE SubSeq(out, 1, oi - 1)
      post == IF c.n > n THEN <<[out[ci] EXCEPT !.lit = Rep(c.cc, c.n - n)]>> \o From(out, ci + 1)
              ELSE From(out, ci + 1)
      dpre == IF o.n > n THEN SubSeq(ds, 1, j - 1) \o <<[o EXCEPT !.n = @ - n]>> ELSE SubSeq(ds, 1, j - 1)
      dpost == IF c.n > n THEN <<[c EXCEPT !.n = @ - n]>> \o From(ds, i + 1) ELSE From(ds, i + 1)
  IN Emph(pre \o <<node>> \o post, dpre \o dpost, u + 1, Len(dpre) + 1, b)

\* resolve the emphasis above position b of the delimiter stack
ResolveEmph(x, b) == LET e == Emph(x.out, x.ds, x.u, b + 1, b)
                     IN [x EXCEPT !.out = e.out, !.ds = e.ds, !.u = e.u]

DelimRun(x) ==
  LET c == x.s[x.p]
      e == IF c \in {34, 39} THEN x.p + 1 ELSE SkipC(x.s, x.p, c)
      bc == IF x.p = 1 THEN LF ELSE x.s[x.p - 1]
      ac == IF e > Len(x.s) THEN LF ELSE x.s[e]
      bw == bc \in UniWs   aw == ac \in UniWs
      bp == bc \in Punct   ap == ac \in Punct
      lf == ~aw /\ (~ap \/ bw \/ bp)
      rf == ~bw /\ (~bp \/ aw \/ ap)
      co == IF c = 95 THEN lf /\ (~rf \/ bp) ELSE IF c = 42 THEN lf ELSE lf /\ ~rf
      cl == IF c = 95 THEN rf /\ (~lf \/ ap) ELSE rf
      lit == IF c = 39 THEN <<8217>> ELSE IF c = 34 THEN <<8220>> ELSE SubSeq(x.s, x.p, e - 1)
      d == [u |-> x.u + 1, cc |-> c, n |-> e - x.p, o |-> e - x.p, co |-> co, cl |-> cl]
  IN [Put(x, "text", lit, e) EXCEPT !.ds = Append(@, d)]

---------------------------------------------------------- (* code spans *)
RECURSIVE TickClose(_, _, _)
\* a run of exactly n backticks at or after i (0 if none)
TickClose(s, i, n) ==
  LET j == SkipTo(s, i, {96})
      e == SkipC(s, j, 96)
  IN IF j > Len(s) THEN 0 ELSE IF e - j = n THEN j ELSE TickClose(s, e, n)
CodeText(c) ==
  LET d == [k \in 1..Len(c) |-> IF c[k] = LF THEN SP ELSE c[k]] \o <<>>
  IN IF ~AllIn(d, {SP}) /\ d[1] = SP /\ d[Len(d)] = SP THEN SubSeq(d, 2, Len(d) - 1) ELSE d
Backticks(x) ==
  LET e == SkipC(x.s, x.p, 96)
      n == e - x.p
      j == TickClose(x.s, e, n)
  IN IF j = 0 THEN Put(x, "text", SubSeq(x.s, x.p, e - 1), e)
     ELSE Put(x, "code", CodeText(SubSeq(x.s, e, j - 1)), j + n)

---------------------------------------------------------- (* line breaks *)
NewLine(x) ==
  LET lit == IF x.out # <<>> /\ x.out[Len(x.out)].t = "text" THEN x.out[Len(x.out)].lit ELSE <<>>
      e == BackTo(lit, Len(lit), {SP})
      y == IF e < Len(lit) THEN [x EXCEPT !.out[Len(x.out)].lit = SubSeq(lit, 1, e)] ELSE x
  IN Put(y, IF Len(lit) - e >= 2 THEN "linebreak" ELSE "softbreak", <<>>, Skip(x.s, x.p + 1, {SP}))
Backslash(x) ==
  LET c == At(x.s, x.p + 1)
  IN IF c = LF THEN Put(x, "linebreak", <<>>, x.p + 2)
     ELSE IF c \in AsciiPunct THEN Put(x, "text", <<c>>, x.p + 2)
     ELSE Put(x, "text", <<92>>, x.p + 1)

---------------------------------------------------------- (* < and & *)
Angle(x) ==
  LET m == EmailAuto(x.s, x.p)
      a == UriAuto(x.s, x.p)
      h == HtmlTag(x.s, x.p)
      auto(e, pre) ==
        LET body == SubSeq(x.s, x.p + 1, e - 2)
            l == [It(x.u + 1, "link", <<>>) EXCEPT !.dest = NormUri(pre \o body), !.au = TRUE,
                                                   !.kids = <<It(x.u + 2, "text", body)>>]
        IN [x EXCEPT !.out = Append(@, l), !.u = @ + 2, !.p = e]
  IN IF m > 0 THEN auto(m, S("mailto:"))
     ELSE IF a > 0 THEN auto(a, <<>>)
     ELSE IF h > 0 THEN Put(x, "html_inline", SubSeq(x.s, x.p, h - 1), h)
     ELSE Put(x, "text", <<60>>, x.p + 1)
Amp(x) == LET e == EntityAt(x.s, x.p)
          IN IF e.n = 0 THEN Put(x, "text", <<38>>, x.p + 1) ELSE Put(x, "text", e.v, e.n)

---------------------------------------------------------- (* brackets *)
Bracket(x, img, p) ==       \* p: index of the "["
  LET y == Put(x, "text", IF img THEN <<33, 91>> ELSE <<91>>, p + 1)
  IN [y EXCEPT !.bs = Append(@, [u |-> y.u, img |-> img, on |-> TRUE, dl |-> Len(x.ds), ix |-> p])]
Bang(x) == IF At(x.s, x.p + 1) = 91 THEN Bracket(x, TRUE, x.p + 1)
           ELSE Put(x, "text", <<33>>, x.p + 1)

\* "(" destination title ")"
Resource(s, i) ==
  LET no == [n |-> 0, dest |-> <<>>, title |-> <<>>] IN
  IF At(s, i) # 40 THEN no
  ELSE LET d == LinkDest(s, Spnl(s, i + 1))
           ts == Spnl(s, d.n)
           t == IF d.n > 0 /\ At(s, ts - 1) \in Ws THEN LinkTitle(s, ts) ELSE NoStr
           e == Spnl(s, IF t.n > 0 THEN t.n ELSE ts)
       IN IF d.n = 0 \/ At(s, e) # 41 THEN no ELSE [n |-> e + 1, dest |-> d.v, title |-> t.v]
Lookup(refs, lab) == {k \in 1..Len(refs) : refs[k].lab = lab}

CloseBracket(x, refs) ==
  LET lit == Put(x, "text", <<93>>, x.p + 1) IN
  IF x.bs = <<>> THEN lit
  ELSE
  LET o == x.bs[Len(x.bs)]
      rest == SubSeq(x.bs, 1, Len(x.bs) - 1)
      r == Resource(x.s, x.p + 1)
      l == LinkLabel(x.s, x.p + 1)
      lab == IF l > x.p + 3 THEN SubSeq(x.s, x.p + 2, l - 2) ELSE SubSeq(x.s, o.ix + 1, x.p - 1)
      \* a text that is too long for a label refers to nothing
      hit == IF Len(lab) > 999 THEN {} ELSE Lookup(refs, NormLabel(lab))
      nx == IF r.n > 0 THEN r.n ELSE IF l > 0 THEN l ELSE x.p + 1
      ok == r.n > 0 \/ hit # {}
      ref == refs[CHOOSE k \in hit : TRUE]
  IN IF ~o.on \/ ~ok THEN [lit EXCEPT !.bs = rest]
     ELSE
     LET y == ResolveEmph(x, o.dl)       \* (positions in out before o are untouched)
         oi == Ix(y.out, o.u)
         node == [It(y.u + 1, IF o.img THEN "image" ELSE "link", <<>>)
                    EXCEPT !.dest = IF r.n > 0 THEN r.dest ELSE ref.dest,
                           !.title = IF r.n > 0 THEN r.title ELSE ref.title,
                           !.kids = From(y.out, oi + 1)]
         off == [k \in 1..Len(rest) |-> IF rest[k].img THEN rest[k] ELSE [rest[k] EXCEPT !.on = FALSE]] \o <<>>
     IN [y EXCEPT !.out = Append(SubSeq(y.out, 1, oi - 1), node), !.u = @ + 1, !.p = nx,
                  !.bs = IF o.img THEN rest ELSE off]

---------------------------------------------------------- (* plain text *)
MainStop == {LF, 96, 91, 93, 92, 33, 60, 38, 42, 95, 39, 34}
Dashes(n) == IF n % 3 = 0 THEN Rep(8212, n \div 3)
             ELSE IF n % 2 = 0 THEN Rep(8211, n \div 2)
             ELSE IF n % 3 = 2 THEN Append(Rep(8212, (n - 2) \div 3), 8211)
             ELSE Rep(8212, (n - 4) \div 3) \o <<8211, 8211>>
RECURSIVE SmartText(_, _)
SmartText(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 46 /\ At(s, i + 1) = 46 /\ At(s, i + 2) = 46 THEN <<8230>> \o SmartText(s, i + 3)
  ELSE IF s[i] = 45 /\ At(s, i + 1) = 45
       THEN LET e == SkipC(s, i, 45) IN Dashes(e - i) \o SmartText(s, e)
  ELSE <<s[i]>> \o SmartText(s, i + 1)
Run(x) == LET e == SkipTo(x.s, x.p, MainStop)
              t == SubSeq(x.s, x.p, e - 1)
          IN Put(x, "text", IF x.smart THEN SmartText(t, 1) ELSE t, e)

InlStep(x, refs) ==
  LET c == x.s[x.p] IN
  CASE c = LF -> NewLine(x)
    [] c = 92 -> Backslash(x)
    [] c = 96 -> Backticks(x)
    [] c \in {42, 95} -> DelimRun(x)
    [] c \in {34, 39} -> IF x.smart THEN DelimRun(x) ELSE Put(x, "text", <<c>>, x.p + 1)
    [] c = 91 -> Bracket(x, FALSE, x.p)
    [] c = 33 -> Bang(x)
    [] c = 93 -> CloseBracket(x, refs)
    [] c = 60 -> Angle(x)
    [] c = 38 -> Amp(x)
    [] OTHER -> Run(x)
InlEnd(x) == ResolveEmph(x, 0).out

RECURSIVE InlRun(_, _)
InlRun(x, refs) == IF InlDone(x) THEN InlEnd(x) ELSE InlRun(InlStep(x, refs), refs)
=============================================================================
