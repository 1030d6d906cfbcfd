------------------------------ MODULE Blocks -------------------------------
(***************************************************************************)
(* Phase 1 of CommonMark: the block structure, as a machine that consumes  *)
(* one line per step.                                                      *)
(*                                                                         *)
(*   stk    the open blocks, document first, innermost last; each carries  *)
(*          the sequence of its closed children                            *)
(*   refs   link reference definitions seen so far (first one first)       *)
(*   n, pl  number of lines consumed, length of the last one               *)
(*                                                                         *)
(* Closed blocks are immutable values, so "later lines never change a      *)
(* closed block" is visible in the shape of the state.                     *)
(***************************************************************************)
EXTENDS Lex

B0 == [t |-> "", sl |-> 0, sc |-> 0, el |-> 0, ec |-> 0, kids |-> <<>>, txt |-> <<>>,
       llb |-> FALSE, chk |-> FALSE, lev |-> 0, fen |-> FALSE, fch |-> 0, fln |-> 0, fof |-> 0,
       hty |-> 0, lt |-> "", ch |-> 0, st |-> -1, dl |-> 0, tight |-> TRUE, mo |-> 0, pd |-> 0,
       info |-> <<>>]
NewB(t, line, col) == [B0 EXCEPT !.t = t, !.sl = line, !.sc = col]

BlockInit == [stk |-> <<NewB("document", 1, 1)>>, refs |-> <<>>, n |-> 0, pl |-> 0]

CanContain(p, c) == IF p = "list" THEN c = "item"
                    ELSE p \in {"document", "block_quote", "item"} /\ c # "item"
AcceptsLines(t) == t \in {"paragraph", "code_block", "html_block"}
Last(q) == q[Len(q)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)

------------------------------------------------ (* reference definitions *)
RefIx(refs, lab) == {k \in 1..Len(refs) : refs[k].lab = lab}
RECURSIVE TakeRefs(_, _)
\* strip the definitions at the start of a paragraph; the first one wins
TakeRefs(txt, refs) ==
  IF At(txt, 1) # 91 THEN [txt |-> txt, refs |-> refs]
  ELSE LET d == RefDef(txt)
       IN IF d.n = 0 THEN [txt |-> txt, refs |-> refs]
          ELSE TakeRefs(From(txt, d.n),
                        IF RefIx(refs, d.lab) # {} THEN refs
                        ELSE Append(refs, [lab |-> d.lab, dest |-> d.dest, title |-> d.title]))

------------------------------------------------ (* tight and loose lists *)
RECURSIVE EndsBlank(_)
\* does b end with a blank line, looking into its last (sub)item; a block is
\* looked into only once
EndsBlank(b) ==
  IF b.llb THEN [r |-> TRUE, b |-> b]
  ELSE IF ~b.chk /\ b.t \in {"list", "item"} /\ b.kids # <<>>
  THEN LET e == EndsBlank(Last(b.kids))
       IN [r |-> e.r, b |-> [b EXCEPT !.chk = TRUE, !.kids = Append(Front1(b.kids), e.b)]]
  ELSE [r |-> FALSE, b |-> [b EXCEPT !.chk = TRUE]]

RECURSIVE LooseItem(_, _, _)
\* children k.. of an item: a blank line between two of them (or after the
\* last one when another item follows)
LooseItem(kids, k, more) ==
  IF k > Len(kids) THEN [r |-> FALSE, kids |-> kids]
  ELSE LET e == EndsBlank(kids[k])
           ks == [kids EXCEPT ![k] = e.b]
       IN IF e.r /\ (more \/ k < Len(kids)) THEN [r |-> TRUE, kids |-> ks]
          ELSE LooseItem(ks, k + 1, more)
RECURSIVE LooseList(_, _, _)
LooseList(items, k, loose) ==
  IF k > Len(items) THEN [r |-> loose, kids |-> items]
  ELSE LET e == EndsBlank(items[k])
           more == k < Len(items)
       IN IF e.r /\ more THEN [r |-> TRUE, kids |-> [items EXCEPT ![k] = e.b]]
          ELSE LET f == LooseItem(e.b.kids, 1, more)
               IN LooseList([items EXCEPT ![k] = [e.b EXCEPT !.kids = f.kids]], k + 1, loose \/ f.r)

------------------------------------------------ (* closing blocks *)
\* index of the line feed that ends the last non-blank line of s
CutBlankEnd(s) == LET q == BackTo(s, Len(s), {SP, TAB, LF})
                      e == SkipTo(s, q + 1, {LF})
                  IN e
Closed(b, refs) ==
  CASE b.t = "paragraph" ->
         LET p == TakeRefs(b.txt, refs)
             gone == (p.txt # b.txt \/ b.txt = <<>>) /\ AllIn(p.txt, Ws)
         IN [b |-> [b EXCEPT !.txt = p.txt], refs |-> p.refs, drop |-> gone]
    [] b.t = "code_block" /\ b.fen ->
         LET e == SkipTo(b.txt, 1, {LF})
         IN [b |-> [b EXCEPT !.info = Unescape(Trim(SubSeq(b.txt, 1, e - 1), Ws)),
                             !.txt = From(b.txt, e + 1)], refs |-> refs, drop |-> FALSE]
    [] b.t = "code_block" /\ ~b.fen ->
         [b |-> [b EXCEPT !.txt = Append(SubSeq(b.txt, 1, CutBlankEnd(b.txt) - 1), LF)],
          refs |-> refs, drop |-> FALSE]
    [] b.t = "html_block" ->
         [b |-> [b EXCEPT !.txt = SubSeq(b.txt, 1, CutBlankEnd(b.txt) - 1)],
          refs |-> refs, drop |-> FALSE]
    [] b.t = "list" ->
         LET l == LooseList(b.kids, 1, FALSE)
         IN [b |-> [b EXCEPT !.tight = ~l.r, !.kids = l.kids], refs |-> refs, drop |-> FALSE]
    [] OTHER -> [b |-> b, refs |-> refs, drop |-> FALSE]

\* close the innermost block; its last line is el, ec columns long
Pop(w, el, ec) ==
  LET f == Closed([Last(w.stk) EXCEPT !.el = el, !.ec = ec], w.refs)
      up == Front1(w.stk)
  IN [w EXCEPT !.refs = f.refs,
               !.stk = IF f.drop THEN up
                       ELSE [up EXCEPT ![Len(up)].kids = Append(@, f.b)]]
RECURSIVE PopTo(_, _)
PopTo(w, m) == IF Len(w.stk) <= m THEN w ELSE PopTo(Pop(w, w.n - 1, w.pl), m)
RECURSIVE PopFor(_, _)
PopFor(w, t) == IF CanContain(Last(w.stk).t, t) THEN w ELSE PopFor(Pop(w, w.n - 1, w.pl), t)
\* close what the line did not match, then open a new innermost block
Open(w, b) == LET v == PopFor(PopTo(w, w.m), b.t)
              IN [v EXCEPT !.stk = Append(v.stk, b), !.m = Len(v.stk) + 1]

------------------------------------------------ (* 1. continue open blocks *)
ClosingFence(s, i, b) ==
  /\ At(s, i) = b.fch
  /\ LET e == SkipC(s, i, b.fch) IN e - i >= b.fln /\ Skip(s, e, {SP}) > Len(s)
RECURSIVE SkipFenceIndent(_, _, _)
SkipFenceIndent(L, k, n) ==
  IF n > 0 /\ At(L, k.i) \in SpTab THEN SkipFenceIndent(L, AdvCols(L, k, 1), n - 1) ELSE k

RECURSIVE Match(_, _, _, _)
\* m: last block continued by the line; shut: the line is a closing fence
Match(stk, L, k, cur) ==
  IF k > Len(stk) THEN [m |-> Len(stk), cur |-> cur, shut |-> FALSE]
  ELSE
  LET b == stk[k]
      ns == NS(L, cur.i, cur.c)
      ind == ns.c - cur.c
      blank == ns.i > Len(L)
      nsc == [i |-> ns.i, c |-> ns.c, p |-> FALSE]
      no == [m |-> k - 1, cur |-> cur, shut |-> FALSE]
  IN
  CASE b.t = "block_quote" ->
         IF ind < 4 /\ At(L, ns.i) = 62
         THEN LET a == [i |-> ns.i + 1, c |-> ns.c + 1, p |-> FALSE]
              IN Match(stk, L, k + 1, IF At(L, a.i) \in SpTab THEN AdvCols(L, a, 1) ELSE a)
         ELSE no
    [] b.t = "list" -> Match(stk, L, k + 1, cur)
    [] b.t = "item" ->
         IF blank THEN IF b.kids = <<>> /\ k = Len(stk) THEN no ELSE Match(stk, L, k + 1, nsc)
         ELSE IF ind >= b.mo + b.pd THEN Match(stk, L, k + 1, AdvCols(L, cur, b.mo + b.pd))
         ELSE no
    [] b.t = "code_block" /\ b.fen ->
         IF ind <= 3 /\ ClosingFence(L, ns.i, b) THEN [m |-> k, cur |-> cur, shut |-> TRUE]
         ELSE [m |-> k, cur |-> SkipFenceIndent(L, cur, b.fof), shut |-> FALSE]
    [] b.t = "code_block" /\ ~b.fen ->
         IF ind >= 4 THEN [m |-> k, cur |-> AdvCols(L, cur, 4), shut |-> FALSE]
         ELSE IF blank THEN [m |-> k, cur |-> nsc, shut |-> FALSE] ELSE no
    [] b.t = "html_block" ->
         IF blank /\ b.hty \in {6, 7} THEN no ELSE [m |-> k, cur |-> cur, shut |-> FALSE]
    [] b.t = "paragraph" -> IF blank THEN no ELSE [m |-> k, cur |-> cur, shut |-> FALSE]

------------------------------------------------ (* 2. new block starts *)
LitScript == S("script") LitPre == S("pre") LitStyle == S("style")
BlockTags == {S("address"), S("article"), S("aside"), S("base"), S("basefont"), S("blockquote"),
  S("body"), S("caption"), S("center"), S("col"), S("colgroup"), S("dd"), S("details"),
  S("dialog"), S("dir"), S("div"), S("dl"), S("dt"), S("fieldset"), S("figcaption"),
  S("figure"), S("footer"), S("form"), S("frame"), S("frameset"), S("h1"), S("h2"), S("h3"),
  S("h4"), S("h5"), S("h6"), S("head"), S("header"), S("hr"), S("html"), S("iframe"),
  S("legend"), S("li"), S("link"), S("main"), S("menu"), S("menuitem"), S("nav"),
  S("noframes"), S("ol"), S("optgroup"), S("option"), S("p"), S("param"), S("section"),
  S("source"), S("summary"), S("table"), S("tbody"), S("td"), S("tfoot"), S("th"),
  S("thead"), S("title"), S("tr"), S("track"), S("ul")}

\* which of the seven start conditions line text s (from its "<") meets
HtmlStart(s, para) ==
  LET e1 == Skip(s, 2, Alnum)
      nm == LowerS(SubSeq(s, 2, e1 - 1))
      b6 == IF At(s, 2) = 47 THEN 3 ELSE 2
      e6 == Skip(s, b6, Alnum)
      n6 == LowerS(SubSeq(s, b6, e6 - 1))
      t7 == FirstOf(OpenTag(s, 1), CloseTag(s, 1), 0, 0, 0, 0)
  IN IF nm \in {LitScript, LitPre, LitStyle} /\ (e1 > Len(s) \/ s[e1] \in Ws \/ s[e1] = 62) THEN 1
     ELSE IF StartsAt(s, 1, LitCmt) THEN 2
     ELSE IF StartsAt(s, 1, LitPIs) THEN 3
     ELSE IF At(s, 2) = 33 /\ At(s, 3) \in Upper THEN 4
     ELSE IF StartsAt(s, 1, S("<![CDATA[")) THEN 5
     ELSE IF n6 \in BlockTags /\ (e6 > Len(s) \/ s[e6] \in Ws \/ s[e6] = 62
                                  \/ (s[e6] = 47 /\ At(s, e6 + 1) = 62)) THEN 6
     ELSE IF ~para /\ t7 > 0 /\ AllIn(From(s, t7), Ws) THEN 7
     ELSE 0
HtmlEnd(s, ty) ==
  CASE ty = 1 -> LET w == LowerS(s) IN \E q \in {S("</script>"), S("</pre>"), S("</style>")} : Find(w, 1, q) > 0
    [] ty = 2 -> Find(s, 1, LitCmtE) > 0
    [] ty = 3 -> Find(s, 1, LitPIe) > 0
    [] ty = 4 -> SkipTo(s, 1, {62}) <= Len(s)
    [] ty = 5 -> Find(s, 1, LitCDe) > 0
    [] OTHER -> FALSE

\* trailing "#"s of an ATX heading
AtxBody(s) ==
  LET e == BackTo(s, Len(s), SpTab)
      h == BackTo(s, e, {35})
      a == BackTo(s, h, SpTab)
  IN IF h = e THEN s                                \* no closing sequence
     ELSE IF a = 0 THEN <<>>                        \* nothing else on the line
     ELSE IF a < h THEN SubSeq(s, 1, a) ELSE s      \* must follow a space or tab

RECURSIVE Marks(_, _, _, _)
Marks(s, i, c, k) == IF i > Len(s) THEN k ELSE IF s[i] = c THEN Marks(s, i + 1, c, k + 1)
                     ELSE IF s[i] \in SpTab THEN Marks(s, i + 1, c, k) ELSE 0
Thematic(s) == s # <<>> /\ s[1] \in {42, 45, 95} /\ Marks(s, 1, s[1], 0) >= 3

NoItem == [ok |-> FALSE, lt |-> "", ch |-> 0, st |-> -1, dl |-> 0, pd |-> 0, cur |-> Cur0]
RECURSIVE SpLoop(_, _, _)
SpLoop(L, k, c0) == LET a == AdvCols(L, k, 1)
                    IN IF a.c - c0 < 5 /\ At(L, a.i) \in SpTab THEN SpLoop(L, a, c0) ELSE a
Marker(L, ns, para) ==
  LET c == L[ns.i]
      e == Skip(L, ns.i, Digits)
      nd == e - ns.i
      bul == c \in {42, 43, 45}
      ord == nd \in 1..9 /\ At(L, e) \in {41, 46}
      num == IF ord THEN NumOf(SubSeq(L, ns.i, e - 1), 1, 0) ELSE -1
      ml == IF bul THEN 1 ELSE nd + 1
      mk == [i |-> ns.i + ml, c |-> ns.c + ml, p |-> FALSE]
  IN IF ~(bul \/ (ord /\ (para => num = 1))) THEN NoItem
     ELSE IF mk.i <= Len(L) /\ L[mk.i] \notin SpTab THEN NoItem
     ELSE IF para /\ Skip(L, mk.i, Ws) > Len(L) THEN NoItem
     ELSE LET a == SpLoop(L, mk, mk.c)
              sp == a.c - mk.c
              short == sp >= 5 \/ sp < 1 \/ a.i > Len(L)
          IN [ok |-> TRUE, lt |-> IF bul THEN "bullet" ELSE "ordered",
              ch |-> IF bul THEN c ELSE 0, st |-> num, dl |-> IF bul THEN 0 ELSE L[e],
              pd |-> IF short THEN ml + 1 ELSE ml + sp,
              cur |-> IF short THEN IF At(L, mk.i) \in SpTab THEN AdvCols(L, mk, 1) ELSE mk
                      ELSE a]

AddTip(w, s) == [w EXCEPT !.stk[Len(w.stk)].txt = @ \o s]

\* One attempt to open blocks at the cursor.  r: 0 nothing starts, 1 a
\* container was opened (try again inside), 2 a leaf was opened whose first
\* line is the rest, 3 a leaf was opened that is complete.
Start(w, L) ==
  LET cont == w.stk[w.m]
      tip == Last(w.stk)
      para == cont.t = "paragraph"
      ns == NS(L, w.cur.i, w.cur.c)
      ind == ns.c - w.cur.c
      blank == ns.i > Len(L)
      s == From(L, ns.i)
      c == At(L, ns.i)
      nsc == [i |-> ns.i, c |-> ns.c, p |-> FALSE]
      eol == [i |-> Len(L) + 1, c |-> ns.c, p |-> FALSE]
      hl == SkipC(s, 1, 35) - 1
      fl == SkipC(s, 1, c) - 1
      ht == IF c = 60 THEN HtmlStart(s, para) ELSE 0
      su == SkipC(s, 1, c)
      it == IF ind < 4 /\ ~blank THEN Marker(L, ns, para) ELSE NoItem
      none == [w |-> w, r |-> 0]
      setext == para /\ ~blank /\ c \in {45, 61} /\ Skip(s, su, SpTab) > Len(s)
      pr == TakeRefs(cont.txt, w.refs)
      w1 == IF setext THEN [w EXCEPT !.stk[w.m].txt = pr.txt, !.refs = pr.refs] ELSE w
  IN
  IF ind >= 4 THEN
    IF tip.t # "paragraph" /\ ~blank
    THEN LET a == AdvCols(L, w.cur, 4)
         IN [w |-> [Open(w, NewB("code_block", w.n, a.i)) EXCEPT !.cur = a], r |-> 2]
    ELSE none
  ELSE IF blank THEN none
  ELSE IF c = 62 THEN
    LET a == [i |-> ns.i + 1, c |-> ns.c + 1, p |-> FALSE]
        k == IF At(L, a.i) \in SpTab THEN AdvCols(L, a, 1) ELSE a
    IN [w |-> [Open(w, NewB("block_quote", w.n, ns.i)) EXCEPT !.cur = k], r |-> 1]
  ELSE IF c = 35 /\ hl <= 6 /\ (hl = Len(s) \/ s[hl + 1] \in SpTab) THEN
    LET body == AtxBody(From(s, Skip(s, hl + 1, SpTab)))
        v == Open(w, [NewB("heading", w.n, ns.i) EXCEPT !.lev = hl, !.txt = body])
    IN [w |-> [Pop(v, w.n, Len(L)) EXCEPT !.m = Len(v.stk) - 1], r |-> 3]
  ELSE IF c \in {96, 126} /\ fl >= 3 /\ (c = 126 \/ SkipTo(s, fl + 1, {96}) > Len(s)) THEN
    [w |-> [Open(w, [NewB("code_block", w.n, ns.i) EXCEPT !.fen = TRUE, !.fch = c, !.fln = fl, !.fof = ind])
            EXCEPT !.cur = [i |-> ns.i + fl, c |-> ns.c + fl, p |-> FALSE]], r |-> 2]
  ELSE IF ht > 0 THEN
    [w |-> Open(w, [NewB("html_block", w.n, w.cur.i) EXCEPT !.hty = ht]), r |-> 2]
  ELSE IF setext /\ pr.txt # <<>> THEN
    \* the paragraph becomes a heading
    LET b == cont
        hd == [NewB("heading", b.sl, b.sc) EXCEPT !.lev = IF c = 61 THEN 1 ELSE 2, !.txt = pr.txt]
    IN [w |-> [Pop([w1 EXCEPT !.stk[w.m] = hd], w.n, Len(L)) EXCEPT !.m = w.m - 1], r |-> 3]
  ELSE IF Thematic(s) THEN
    LET v == Open(w1, NewB("thematic_break", w.n, ns.i))
    IN [w |-> [Pop(v, w.n, Len(L)) EXCEPT !.m = Len(v.stk) - 1], r |-> 3]
  ELSE IF it.ok THEN
    LET d(t) == [NewB(t, w.n, ns.i) EXCEPT !.lt = it.lt, !.ch = it.ch, !.st = it.st, !.dl = it.dl,
                                           !.mo = ind, !.pd = it.pd]
        v == PopTo(w1, w.m)
        lb == Last(v.stk)
        same == lb.t = "list" /\ lb.lt = it.lt /\ lb.ch = it.ch /\ lb.dl = it.dl
        u == IF same THEN v ELSE Open(v, d("list"))
    IN [w |-> [Open(u, d("item")) EXCEPT !.cur = it.cur], r |-> 1]
  ELSE [none EXCEPT !.w = w1]

RECURSIVE Starts(_, _)
Starts(w, L) ==
  IF AcceptsLines(w.stk[w.m].t) /\ w.stk[w.m].t # "paragraph" THEN [w |-> w, r |-> 2]
  ELSE LET x == Start(w, L)
       IN IF x.r = 1 THEN Starts(x.w, L) ELSE x

------------------------------------------------ (* 3. the rest of the line *)
SetLlb(w, v) == [w EXCEPT !.stk = [k \in 1..Len(w.stk) |->
                   IF k <= w.m THEN [w.stk[k] EXCEPT !.llb = v] ELSE w.stk[k]] \o <<>>]

RestOfLine(w, L) ==
  LET ns == NS(L, w.cur.i, w.cur.c)
      blank == ns.i > Len(L)
      tip == Last(w.stk)
      text == Append(From(L, ns.i), LF)
  IN
  IF Len(w.stk) > w.m /\ ~blank /\ tip.t = "paragraph"
  THEN AddTip(w, text)                                     \* lazy continuation
  ELSE LET v0 == PopTo(w, w.m)
           c == Last(v0.stk)
           v1 == IF blank /\ c.kids # <<>>
                 THEN [v0 EXCEPT !.stk[w.m].kids[Len(c.kids)].llb = TRUE] ELSE v0
           quiet == c.t = "block_quote" \/ (c.t = "code_block" /\ c.fen)
                    \/ (c.t = "item" /\ c.kids = <<>> /\ c.sl = w.n)
           v2 == SetLlb(v1, blank /\ ~quiet)
       IN IF c.t = "paragraph" THEN AddTip(v2, text)
          ELSE IF AcceptsLines(c.t)
          THEN LET v3 == AddTip(v2, Append(RestOf(L, w.cur), LF))
               IN IF c.t = "html_block" /\ c.hty \in 1..5 /\ HtmlEnd(From(L, w.cur.i), c.hty)
                  THEN Pop(v3, w.n, Len(L)) ELSE v3
          ELSE IF blank THEN v2
          ELSE LET v3 == Open(v2, [NewB("paragraph", w.n, ns.i) EXCEPT !.txt = text])
               IN v3

LineStep(b, L0) ==
  LET L == NoNul(L0)
      n == b.n + 1
      x == Match(b.stk, L, 2, Cur0)
      w == [stk |-> b.stk, refs |-> b.refs, n |-> n, pl |-> b.pl, m |-> x.m, cur |-> x.cur]
      y == IF x.shut THEN Pop(w, n, Len(L))
           ELSE LET z == Starts(w, L)
                IN IF z.r = 3 THEN SetLlb(z.w, FALSE) ELSE RestOfLine(z.w, L)
  IN [stk |-> y.stk, refs |-> y.refs, n |-> n, pl |-> Len(L)]

\* end of input: everything is closed
BlockEnd(b) ==
  LET w == [stk |-> b.stk, refs |-> b.refs, n |-> b.n + 1, pl |-> b.pl, m |-> 1, cur |-> Cur0]
      v == PopTo(w, 1)
  IN [doc |-> [v.stk[1] EXCEPT !.el = b.n, !.ec = b.pl], refs |-> v.refs]
=============================================================================
