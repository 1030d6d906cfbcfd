--------------------------------- MODULE Rst ---------------------------------
(***************************************************************************)
(* The reStructuredText renderer: one step per walk event.                 *)
(*   out   characters written so far                                       *)
(*   nl    the last thing written is exactly one line feed                 *)
(*   ind   the current indentation, made of the character ic               *)
(*   hs    where the text of the heading we are in begins in out           *)
(***************************************************************************)
EXTENDS Walk


RInitC(c) == [w |-> WalkInit, out |-> <<>>, nl |-> TRUE, ind |-> 0, hs |-> 0, ic |-> c]
RInit == RInitC(SP)
\* a line feed is never indented; other text is, at the start of a line
ROut(h, s) == IF s = <<LF>> THEN [h EXCEPT !.out = Append(@, LF), !.nl = TRUE]
              ELSE LET t == (IF h.nl THEN Rep(h.ic, h.ind) ELSE <<>>) \o s
                   IN [h EXCEPT !.out = @ \o t, !.nl = (t = <<LF>>)]
RCr(h) == ROut(h, <<LF>>)

\* lines of a code block, each indented by four; a final line feed is dropped
RECURSIVE CodeLines(_, _, _, _)
CodeLines(s, i, ind, c) == LET j == SkipTo(s, i, {LF})
                        IN IF j >= Len(s) THEN Rep(c, 4) \o SubSeq(s, i, j - 1)
                           ELSE Rep(c, 4) \o SubSeq(s, i, j) \o Rep(c, ind) \o CodeLines(s, j + 1, ind, c)
RWord(s) == LET i == Skip(s, 1, UniWs) IN SubSeq(s, i, SkipTo(s, i, UniWs) - 1)

HeadChars == S("#*=-^\"")
R_img == S(".. image:: ") R_alt == S(":alt: ") R_code == S(".. code::") R_st == S("**")
R_cc == S("``") R_lb == S(" <") R_le == S(">`_") R_bul == S("* ") R_num == S("#. ")
ItemMark(r) == IF r.lt = "bullet" THEN R_bul ELSE R_num

ParentKind(rows, w) == LET n == Len(w.stk) IN IF n = 0 THEN "" ELSE rows[w.stk[n]].t

RNode(rows, h, r, ent) ==
  CASE r.t \in {"text"} -> ROut(h, r.lit)
    [] r.t = "softbreak" -> RCr(h)
    [] r.t = "linebreak" -> RCr(RCr(h))
    [] r.t = "emph" -> ROut(h, <<42>>)
    [] r.t = "strong" -> ROut(h, R_st)
    [] r.t = "paragraph" ->
         IF ParentKind(rows, IF ent THEN h.w ELSE WalkStep(rows, h.w)) # "item" THEN RCr(h)
         ELSE IF ~ent \/ h.w.i = h.w.stk[Len(h.w.stk)] + 1 THEN h       \* first in its item
         ELSE IF h.nl THEN RCr(h) ELSE RCr(RCr(h))
    [] r.t = "link" -> IF ent THEN ROut(h, <<96>>) ELSE ROut(h, R_lb \o r.dest \o R_le)
    [] r.t = "image" ->
         IF ent THEN LET a == RCr(ROut(h, R_img \o r.dest)) IN ROut([a EXCEPT !.ind = @ + 4], R_alt)
         ELSE [h EXCEPT !.ind = @ - 4]
    [] r.t = "code" -> ROut(ROut(ROut(h, R_cc), r.lit), R_cc)
    [] r.t = "code_block" ->
         LET fw == RWord(r.info)
             a == RCr(RCr(ROut(RCr(h), R_code \o (IF fw = <<>> THEN <<>> ELSE <<SP>> \o fw))))
         IN RCr(ROut(a, IF r.lit = <<>> THEN <<>> ELSE CodeLines(r.lit, 1, h.ind, h.ic)))
    [] r.t = "list" -> IF ent THEN RCr(h) ELSE h
    [] r.t = "item" ->
         IF ent THEN [ROut(h, ItemMark(r)) EXCEPT !.ind = @ + Len(ItemMark(r))]
         ELSE RCr([h EXCEPT !.ind = @ - Len(ItemMark(r))])
    [] r.t = "block_quote" -> [h EXCEPT !.ind = IF ent THEN @ + 4 ELSE @ - 4]
    [] r.t = "heading" ->
         IF ent THEN LET a == RCr(h) IN [a EXCEPT !.hs = Len(a.out)]
         ELSE LET n == Len(Trim(From(h.out, h.hs + 1), {h.ic}))
                  c == HeadChars[IF r.lev \in 1..6 THEN r.lev ELSE 6]
              IN RCr(ROut(RCr(h), Rep(c, n)))
    [] OTHER -> h          \* document; raw HTML and thematic breaks have no form

RDone(rows, h) == WalkDone(rows, h.w)
RStep(rows, h) ==
  LET k == EvRow(rows, h.w)
      g == RNode(rows, h, rows[k], ~Leaves(rows, h.w))
  IN [g EXCEPT !.w = WalkStep(rows, h.w)]
RECURSIVE RRun(_, _)
RRun(rows, h) == IF RDone(rows, h) THEN h.out ELSE RRun(rows, RStep(rows, h))
RenderRst(rows) == RRun(rows, RInit)
=============================================================================
