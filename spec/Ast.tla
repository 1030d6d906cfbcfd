-------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* The tree a parse returns, written as rows in document order.  A row has *)
(* the depth d of its node, its kind t and its attributes; the tree is     *)
(* determined by the depths.                                               *)
(***************************************************************************)
EXTENDS Blocks, Inlines

Row0 == [d |-> 0, t |-> "", lit |-> <<>>, dest |-> <<>>, title |-> <<>>, info |-> <<>>, lev |-> 0,
         lt |-> "", ch |-> 0, st |-> -1, dl |-> 0, tight |-> TRUE, sl |-> 0, sc |-> 0, el |-> 0, ec |-> 0]

ContainerKinds == {"document", "block_quote", "list", "item", "paragraph", "heading",
                   "emph", "strong", "link", "image", "custom_inline", "custom_block"}
BlockKinds == {"document", "block_quote", "list", "item", "paragraph", "heading",
               "code_block", "html_block", "thematic_break"}

BlockRow(b, d) ==
  [d |-> d, t |-> b.t, lit |-> IF b.t \in {"code_block", "html_block"} THEN b.txt ELSE <<>>,
   dest |-> <<>>, title |-> <<>>, info |-> b.info, lev |-> b.lev,
   lt |-> b.lt, ch |-> b.ch, st |-> b.st, dl |-> b.dl, tight |-> IF b.t = "list" THEN b.tight ELSE TRUE,
   sl |-> b.sl, sc |-> b.sc, el |-> b.el, ec |-> b.ec]

RECURSIVE InlRows(_, _, _, _)
\* rows of the inlines x[k..] at depth d; adjacent text is one row
InlRows(x, k, d, acc) ==
  IF k > Len(x) THEN acc
  ELSE LET it == x[k] IN
  IF it.t = "text" /\ it.lit = <<>> THEN InlRows(x, k + 1, d, acc)
  ELSE IF it.t = "text" /\ acc # <<>> /\ acc[Len(acc)].t = "text" /\ acc[Len(acc)].d = d
  THEN InlRows(x, k + 1, d, [acc EXCEPT ![Len(acc)].lit = @ \o it.lit])
  ELSE LET r == [Row0 EXCEPT !.d = d, !.t = it.t, !.lit = it.lit, !.dest = it.dest, !.title = it.title]
       IN InlRows(x, k + 1, d, Append(acc, r) \o InlRows(it.kids, 1, d + 1, <<>>))

RECURSIVE Children(_, _, _)
Children(kids, k, d) == IF k > Len(kids) THEN <<>> ELSE <<[d |-> d, b |-> kids[k]]>> \o Children(kids, k + 1, d)
HasText(b) == b.t \in {"paragraph", "heading"}

RECURSIVE LinesRun(_, _, _)
LinesRun(b, ls, k) == IF k > Len(ls) THEN b ELSE LinesRun(LineStep(b, ls[k]), ls, k + 1)
BlocksOf(d) == BlockEnd(LinesRun(BlockInit, SplitLines(d), 1))

RECURSIVE RowsOf(_, _, _)
RowsOf(b, d, env) ==
  LET kids == b.kids
      f[k \in 0..Len(kids)] == IF k = 0 THEN <<BlockRow(b, d)>> ELSE f[k - 1] \o RowsOf(kids[k], d + 1, env)
  IN IF HasText(b)
     THEN <<BlockRow(b, d)>> \o InlRows(InlRun(InlInit(b.txt, env.smart), env.refs), 1, d + 1, <<>>)
     ELSE f[Len(kids)]

\* the tree of text d
Parse(d, smart) == LET e == BlocksOf(d) IN RowsOf(e.doc, 0, [refs |-> e.refs, smart |-> smart])

\* ... from lines already split
ParseLines(ls, smart) ==
  LET e == BlockEnd(LinesRun(BlockInit, ls, 1)) IN RowsOf(e.doc, 0, [refs |-> e.refs, smart |-> smart])
=============================================================================
