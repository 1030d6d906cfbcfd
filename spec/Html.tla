-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* The HTML renderer: one step per walk event.                             *)
(*   out  characters written so far                                        *)
(*   nl   the last thing written is exactly one line feed                  *)
(*   img  number of images we are inside of (tags are suppressed then)     *)
(*   hk   the helpers a class derived from it overrides: extra (attributes *)
(*        its attrs adds), wrap (its out writes text in braces instead of  *)
(*        escaping it), up (its tag writes names in capitals)              *)
(* Options: safe, pos (sourcepos), sb (the text of a soft break).          *)
(***************************************************************************)
EXTENDS Walk

Esc1(c) == CASE c = 38 -> S("&amp;") [] c = 60 -> S("&lt;") [] c = 62 -> S("&gt;")
             [] c = 34 -> S("&quot;") [] OTHER -> <<c>>
RECURSIVE EscFrom(_, _)
EscFrom(s, i) == LET j == SkipTo(s, i, {38, 60, 62, 34})
                 IN IF j > Len(s) THEN From(s, i) ELSE SubSeq(s, i, j - 1) \o Esc1(s[j]) \o EscFrom(s, j + 1)
Esc(s) == EscFrom(s, 1)

NoHooks == [extra |-> <<>>, wrap |-> FALSE, up |-> FALSE]
HInit == [w |-> WalkInit, out |-> <<>>, nl |-> TRUE, img |-> 0, hk |-> NoHooks]
HLit(h, s) == [h EXCEPT !.out = @ \o s, !.nl = (s = <<LF>>)]
HOut(h, s) == HLit(h, IF h.hk.wrap THEN <<123>> \o s \o <<125>> ELSE Esc(s))
HCr(h) == IF h.nl THEN h ELSE HLit(h, <<LF>>)
QT == S("\"")
Capitals(s) == [k \in 1..Len(s) |-> IF s[k] \in 97..122 THEN s[k] - 32 ELSE s[k]] \o <<>>
RECURSIVE AttrS(_, _)
AttrS(as, k) == IF k > Len(as) THEN <<>> ELSE <<SP>> \o as[k][1] \o S("=\"") \o as[k][2] \o QT \o AttrS(as, k + 1)
\* a tag: name with its slash, attributes, text before the ">"
HTag(h, nm, as, end) == IF h.img > 0 THEN h
                        ELSE [h EXCEPT !.out = @ \o <<60>> \o (IF h.hk.up THEN Capitals(nm) ELSE nm) \o AttrS(as, 1) \o end \o <<62>>, !.nl = FALSE]
Slash(nm, entering) == IF entering THEN nm ELSE <<47>> \o nm
SelfClose == S(" /")

\* javascript: vbscript: file: data: in any case, unless a data: image
SchJs == S("javascript:")  SchVb == S("vbscript:")  SchFile == S("file:")  SchData == S("data:")
ImgKinds == {S("data:image/png"), S("data:image/gif"), S("data:image/jpeg"), S("data:image/webp")}
Unsafe(u) == LET l == LowerS(u) IN
  /\ \E p \in {SchJs, SchVb, SchFile, SchData} : StartsAt(l, 1, p)
  /\ ~ \E p \in ImgKinds : StartsAt(l, 1, p)

Omitted == S("<!-- raw HTML omitted -->")
N_p == S("p") N_h == S("h") N_em == S("em") N_st == S("strong") N_a == S("a") N_pre == S("pre")
N_code == S("code") N_ul == S("ul") N_ol == S("ol") N_li == S("li") N_bq == S("blockquote")
N_hr == S("hr") N_br == S("br") A_href == S("href") A_title == S("title") A_class == S("class")
A_start == S("start") A_pos == S("data-sourcepos") LangPre == S("language-")
L_img == S("<img src=\"") L_alt == S("\" alt=\"") L_tit == S("\" title=\"") L_end == S("\" />")

PosAttr(r, o) == IF o.pos /\ r.sl > 0
                 THEN <<<<A_pos, IntS(r.sl) \o <<58>> \o IntS(r.sc) \o <<45>> \o IntS(r.el) \o <<58>> \o IntS(r.ec)>>>>
                 ELSE <<>>
FirstWord(s) == LET i == Skip(s, 1, UniWs) IN SubSeq(s, i, SkipTo(s, i, UniWs) - 1)

\* is the paragraph at row k a child of an item of a tight list
InTight(rows, w) ==
  LET n == Len(w.stk) IN n >= 2 /\ rows[w.stk[n - 1]].t = "list" /\ rows[w.stk[n - 1]].tight

\* h.w is the walk state before the event; the paragraph itself is on the
\* stack when it is left
HNode(rows, h, r, ent, o) ==
  LET pa == PosAttr(r, o) \o h.hk.extra IN
  CASE r.t = "text" -> HOut(h, r.lit)
    [] r.t = "softbreak" -> HLit(h, o.sb)
    [] r.t = "linebreak" -> HCr(HTag(h, N_br, <<>>, SelfClose))
    [] r.t = "link" ->
         HTag(h, Slash(N_a, ent),
              IF ~ent THEN <<>>
              ELSE pa \o (IF o.safe /\ Unsafe(r.dest) THEN <<>> ELSE <<<<A_href, Esc(r.dest)>>>>)
                      \o (IF r.title = <<>> THEN <<>> ELSE <<<<A_title, Esc(r.title)>>>>), <<>>)
    [] r.t = "image" ->
         IF ent THEN [(IF h.img > 0 THEN h
                       ELSE HLit(h, L_img \o (IF o.safe /\ Unsafe(r.dest) THEN <<>> ELSE Esc(r.dest)) \o L_alt))
                      EXCEPT !.img = @ + 1]
         ELSE LET g == [h EXCEPT !.img = @ - 1]
              IN IF g.img > 0 THEN g
                 ELSE HLit(IF r.title = <<>> THEN g ELSE HLit(g, L_tit \o Esc(r.title)), L_end)
    [] r.t = "emph" -> HTag(h, Slash(N_em, ent), <<>>, <<>>)
    [] r.t = "strong" -> HTag(h, Slash(N_st, ent), <<>>, <<>>)
    [] r.t = "paragraph" ->
         IF InTight(rows, IF ent THEN h.w ELSE WalkStep(rows, h.w)) THEN h
         ELSE IF ent THEN HTag(HCr(h), N_p, pa, <<>>) ELSE HCr(HTag(h, Slash(N_p, FALSE), <<>>, <<>>))
    [] r.t = "heading" ->
         IF ent THEN HTag(HCr(h), N_h \o IntS(r.lev), pa, <<>>)
         ELSE HCr(HTag(h, Slash(N_h \o IntS(r.lev), FALSE), <<>>, <<>>))
    [] r.t = "code" ->
         HTag(HOut(HTag(h, N_code, <<>>, <<>>), r.lit), Slash(N_code, FALSE), <<>>, <<>>)
    [] r.t = "code_block" ->
         LET fw == FirstWord(r.info)
             as == pa \o (IF fw = <<>> THEN <<>> ELSE <<<<A_class, LangPre \o Esc(fw)>>>>)
             a == HTag(HTag(HCr(h), N_pre, <<>>, <<>>), N_code, as, <<>>)
             b == HTag(HTag(HOut(a, r.lit), Slash(N_code, FALSE), <<>>, <<>>), Slash(N_pre, FALSE), <<>>, <<>>)
         IN HCr(b)
    [] r.t = "thematic_break" -> HCr(HTag(HCr(h), N_hr, pa, SelfClose))
    [] r.t = "block_quote" -> HCr(HTag(HCr(h), Slash(N_bq, ent), IF ent THEN pa ELSE <<>>, <<>>))
    [] r.t = "list" ->
         LET nm == IF r.lt = "bullet" THEN N_ul ELSE N_ol
             as == pa \o (IF r.st \in {-1, 1} THEN <<>> ELSE <<<<A_start, IntS(r.st)>>>>)
         IN HCr(HTag(HCr(h), Slash(nm, ent), IF ent THEN as ELSE <<>>, <<>>))
    [] r.t = "item" -> IF ent THEN HTag(h, N_li, pa, <<>>) ELSE HCr(HTag(h, Slash(N_li, FALSE), <<>>, <<>>))
    [] r.t = "html_inline" ->
         LET s == IF o.safe THEN Omitted ELSE r.lit
         IN IF h.img > 0 THEN HOut(h, s) ELSE HLit(h, s)
    [] r.t = "html_block" -> HCr(HLit(HCr(h), IF o.safe THEN Omitted ELSE r.lit))
    \* custom nodes: dest holds the text written on entering, title on leaving
    [] r.t = "custom_inline" -> LET s == IF ent THEN r.dest ELSE r.title IN IF s = <<>> THEN h ELSE HLit(h, s)
    [] r.t = "custom_block" ->
         LET s == IF ent THEN r.dest ELSE r.title IN HCr(IF s = <<>> THEN HCr(h) ELSE HLit(HCr(h), s))
    [] OTHER -> h                       \* the document, kinds unknown to it

HDone(rows, h) == WalkDone(rows, h.w)
HStep(rows, h, o) ==
  LET k == EvRow(rows, h.w)
      ent == ~Leaves(rows, h.w)
      g == HNode(rows, h, rows[k], ent, o)
  IN [g EXCEPT !.w = WalkStep(rows, h.w)]
RECURSIVE HRun(_, _, _)
HRun(rows, h, o) == IF HDone(rows, h) THEN h.out ELSE HRun(rows, HStep(rows, h, o), o)
RenderHtml(rows, o) == HRun(rows, HInit, o)
DefOpts == [safe |-> FALSE, pos |-> FALSE, sb |-> <<LF>>]
=============================================================================
