------------------------------ MODULE Project ------------------------------
(***************************************************************************)
(* What each property looks at: projections of a tree to the observations  *)
(* that the property speaks about.                                         *)
(***************************************************************************)
EXTENDS Html

RECURSIVE Keep(_, _, _)
Keep(s, i, A) == IF i > Len(s) THEN <<>>
                 ELSE LET j == SkipTo(s, i, A)
                          e == Skip(s, j, A)
                      IN SubSeq(s, j, e - 1) \o Keep(s, e, A)
Words == Alnum \cup (192..591)

\* the words a leaf holds: of its literal, or of all inlines below it
RECURSIVE LeafText(_, _, _, _)
LeafText(rows, k, d, acc) ==
  IF k > Len(rows) \/ rows[k].d <= d THEN acc
  ELSE LeafText(rows, k + 1, d,
                IF rows[k].t \in {"softbreak", "linebreak"} THEN acc
                ELSE acc \o Keep(rows[k].lit, 1, Words))

\* ... exactly, where a leaf has no markup
RECURSIVE Plain(_, _, _)
Plain(rows, k, d) == k > Len(rows) \/ rows[k].d <= d
                     \/ (rows[k].t \in {"text", "softbreak", "linebreak"} /\ Plain(rows, k + 1, d))
RECURSIVE ExactText(_, _, _, _)
ExactText(rows, k, d, acc) ==
  IF k > Len(rows) \/ rows[k].d <= d THEN acc
  ELSE ExactText(rows, k + 1, d, acc \o CASE rows[k].t = "text" -> rows[k].lit
                                          [] rows[k].t = "softbreak" -> <<10>>
                                          [] OTHER -> <<92, 10>>)

\* kinds, nesting, levels and text
FStruct(rows, k) == LET r == rows[k] IN
  <<r.d, r.t, r.lev, IF r.t \in {"code_block", "html_block"} THEN r.lit
                     ELSE IF r.t \notin {"paragraph", "heading"} THEN <<>>
                     ELSE IF Plain(rows, k + 1, r.d) THEN ExactText(rows, k + 1, r.d, <<>>)
                     ELSE LeafText(rows, k + 1, r.d, <<>>) >>
FList(rows, k) == LET r == rows[k] IN
  IF r.t = "list" THEN <<r.d, r.t, r.lt, r.st, r.dl, r.ch, r.tight>> ELSE <<r.d, r.t, "", 0, 0, 0, TRUE>>
FCode(rows, k) == LET r == rows[k] IN
  IF r.t \in {"code_block", "html_block"} THEN <<r.t, r.lit, r.info>> ELSE <<r.t, <<>>, <<>> >>
FPos(rows, k) == LET r == rows[k] IN <<r.d, r.t, r.sl, r.sc, r.el, r.ec>>
RECURSIVE Blk(_, _, _)
\* rows of blocks only
Blk(rows, k, p) ==
  IF k > Len(rows) THEN <<>>
  ELSE IF rows[k].t \in BlockKinds
  THEN << CASE p = "struct" -> FStruct(rows, k) [] p = "list" -> FList(rows, k)
            [] p = "code" -> FCode(rows, k) [] p = "pos" -> FPos(rows, k) >> \o Blk(rows, k + 1, p)
  ELSE Blk(rows, k + 1, p)
RECURSIVE Inl(_, _)
\* inlines in full, blocks by kind and depth
Inl(rows, k) == IF k > Len(rows) THEN <<>>
                ELSE LET r == rows[k] IN
                     (IF r.t \in BlockKinds THEN << <<r.d, r.t, <<>>, <<>>, <<>> >> >>
                      ELSE << <<r.d, r.t, r.lit, r.dest, r.title>> >>) \o Inl(rows, k + 1)
RECURSIVE All(_, _)
All(rows, k) == IF k > Len(rows) THEN <<>>
                ELSE LET r == rows[k] IN
                     << <<r.d, r.t, r.lit, r.dest, r.title, r.info, r.lev, r.lt, r.st, r.dl, r.ch, r.tight,
                          r.sl, r.sc, r.el, r.ec>> >> \o All(rows, k + 1)

Proj(p, rows) == CASE p = "struct" -> Blk(rows, 1, "struct")
                   [] p = "list" -> Blk(rows, 1, "list")
                   [] p = "code" -> Blk(rows, 1, "code")
                   [] p = "pos" -> Blk(rows, 1, "pos")
                   [] p = "inl" -> Inl(rows, 1)
                   [] p = "all" -> All(rows, 1)
                   [] p = "html" -> RenderHtml(rows, DefOpts)
=============================================================================
