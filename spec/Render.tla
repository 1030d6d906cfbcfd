------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The renderers as state machines over walk events, and conformance of    *)
(* the code's output to them.                                              *)
(* Job: cases, each with rows (a tree as the code returned it or as it was *)
(* built through the code's node interface), kind "html" or "rst", the     *)
(* options o, and obs, what the code's renderer wrote.                     *)
(***************************************************************************)
EXTENDS Html, Rst

VARIABLES ix, h, st
vars == <<ix, h, st>>
Case == Job.cases[ix]
Rows == Case.rows
IsHtml == Case.kind = "html"

Init == /\ ix \in 1..Len(Job.cases) /\ st = "run"
        /\ h = IF IsHtml THEN HInit ELSE RInitC(Case.o.ic)
More == st = "run" /\ ~WalkDone(Rows, h.w)
Step == h' = (IF IsHtml THEN HStep(Rows, h, Case.o) ELSE RStep(Rows, h))
Enter == More /\ ~Leaves(Rows, h.w) /\ Step /\ UNCHANGED <<ix, st>>
Leave == More /\ Leaves(Rows, h.w) /\ Step /\ UNCHANGED <<ix, st>>

----------------------------------------------- (* what any output must be *)
TagNames == {N_p, N_em, N_st, N_a, N_pre, N_code, N_ul, N_ol, N_li, N_bq, N_hr, N_br, S("img")}
            \cup {N_h \o <<c>> : c \in 49..54}
TagKinds == {"html_inline", "html_block", "custom_inline", "custom_block"}
NoRaw == \A k \in 1..Len(Rows) : Rows[k].t \notin TagKinds
NoCustom == \A k \in 1..Len(Rows) : Rows[k].t \notin {"custom_inline", "custom_block"}
\* end of the attributes from i, 0 when they are malformed; each value free of
\* markup characters
RECURSIVE Attrs(_, _)
Attrs(s, i) ==
  IF At(s, i) # SP \/ At(s, i + 1) = 47 THEN i
  ELSE LET n == Skip(s, i + 1, Alpha \cup {45})
       IN IF n = i + 1 \/ At(s, n) # 61 \/ At(s, n + 1) # 34 THEN 0
          ELSE LET e == SkipTo(s, n + 2, {34, 60, 62})
               IN IF At(s, e) # 34 THEN 0 ELSE Attrs(s, e + 1)
\* end of the tag at i (a "<"), 0 when it is none of the renderer's
TagAt(s, i) ==
  LET c == IF At(s, i + 1) = 47 THEN 1 ELSE 0
      n == Skip(s, i + 1 + c, Alnum)
      a == IF c = 1 THEN n ELSE Attrs(s, n)
      e == IF a > 0 /\ At(s, a) = SP /\ At(s, a + 1) = 47 THEN a + 2 ELSE a
  IN IF SubSeq(s, i + 1 + c, n - 1) \notin TagNames \/ a = 0 \/ At(s, e) # 62 THEN 0 ELSE e + 1
RECURSIVE Markup(_, _, _, _)
\* scans the output: "bad" or the stack of open elements
Markup(s, i, stk, omit) ==
  LET j == SkipTo(s, i, {60, 62, 34}) IN
  IF j > Len(s) THEN [ok |-> TRUE, stk |-> stk]
  ELSE IF s[j] # 60 THEN [ok |-> FALSE, stk |-> stk]
  ELSE IF omit /\ StartsAt(s, j, Omitted) THEN Markup(s, j + Len(Omitted), stk, omit)
  ELSE LET e == TagAt(s, j) IN
       IF e = 0 THEN [ok |-> FALSE, stk |-> stk]
       ELSE IF s[e - 2] = 47 THEN Markup(s, e, stk, omit)
       ELSE IF s[j + 1] = 47
            THEN IF stk # <<>> /\ stk[Len(stk)] = SubSeq(s, j + 2, e - 2)
                 THEN Markup(s, e, SubSeq(stk, 1, Len(stk) - 1), omit) ELSE [ok |-> FALSE, stk |-> stk]
            ELSE Markup(s, e, Append(stk, SubSeq(s, j + 1, Skip(s, j + 1, Alnum) - 1)), omit)
\* escaped, and every element closed in turn
WellFormed(s, omit) == LET m == Markup(s, 1, <<>>, omit) IN m.ok /\ m.stk = <<>>
\* targets of links and images in the output
L_href == S(" href=\"")  L_src == S(" src=\"")
RECURSIVE BadTarget(_, _, _)
BadTarget(s, i, lit) == LET j == Find(s, i, lit) IN
  IF j = 0 THEN FALSE
  ELSE LET v == j + Len(lit) e == SkipTo(s, v, {34})
       IN Unsafe(SubSeq(s, v, e - 1)) \/ BadTarget(s, e, lit)
SafeOut(s) == ~BadTarget(s, 1, L_href) /\ ~BadTarget(s, 1, L_src)

\* a target naming one of the schemes elsewhere than at its start, or one
\* that the statement leaves open, may be dropped or kept in safe mode
Schemes == {SchJs, SchVb, SchFile, SchData}
Inside(u) == LET l == LowerS(u) IN
  \E p \in Schemes : LET j == Find(l, 1, p) IN j > 1 \/ (j = 1 /\ Find(l, 2, p) > 0)
                     \/ (j = 1 /\ \E q \in Schemes \ {p} : Find(l, 2, q) > 0)
Leeway == IsHtml /\ Case.o.safe /\ \E k \in 1..Len(Rows) : Rows[k].t \in {"link", "image"} /\ Inside(Rows[k].dest)

OutOk == IF ~IsHtml THEN TRUE
         ELSE IF ~(IF NoRaw THEN Case.plain ELSE Case.o.safe /\ NoCustom /\ Case.plain) THEN
              (IF Case.o.safe /\ NoCustom THEN SafeOut(Case.obs) ELSE TRUE)
         ELSE WellFormed(Case.obs, Case.o.safe) /\ (IF Case.o.safe /\ NoCustom THEN SafeOut(Case.obs) ELSE TRUE)
Right == IF Leeway THEN OutOk ELSE IF h.out = Case.obs THEN OutOk ELSE FALSE
Finish == /\ st = "run" /\ WalkDone(Rows, h.w)
          /\ IF Right THEN st' = "ok"
             ELSE /\ PrintT(<<"MISMATCH", ix>>) /\ st' = "bad"
                  /\ IF Job.explain THEN PrintT(<<"EXPECTED", ix, ToJson(h.out)>>) ELSE TRUE
          /\ UNCHANGED <<ix, h>>
Next == Enter \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------ (* properties of the design *)
\* the elements open in the output so far are those of the nodes entered and
\* not yet left, outermost first, up to the first image
ElemOf(k) == LET r == Rows[h.w.stk[k]] IN
  CASE r.t = "emph" -> <<N_em>> [] r.t = "strong" -> <<N_st>> [] r.t = "link" -> <<N_a>>
    [] r.t = "heading" -> <<N_h \o IntS(r.lev)>> [] r.t = "block_quote" -> <<N_bq>> [] r.t = "item" -> <<N_li>>
    [] r.t = "list" -> IF r.lt = "bullet" THEN <<N_ul>> ELSE <<N_ol>>
    [] r.t = "paragraph" -> IF k >= 3 /\ Rows[h.w.stk[k - 2]].t = "list" /\ Rows[h.w.stk[k - 2]].tight THEN <<>> ELSE <<N_p>>
    [] OTHER -> <<>>
RECURSIVE Elems(_)
Elems(k) == IF k > Len(h.w.stk) THEN <<>> ELSE ElemOf(k) \o Elems(k + 1)
Balanced == (IsHtml /\ Case.plain /\ NoRaw /\ h.img = 0) =>
  LET m == Markup(h.out, 1, <<>>, Case.o.safe) IN m.ok /\ m.stk = Elems(1)
\* indentation is that of the nodes we are inside of, and the text of every
\* node left so far is in the output, in order
RECURSIVE Width(_)
Width(k) == IF k > Len(h.w.stk) THEN 0
            ELSE LET r == Rows[h.w.stk[k]] IN
                 (CASE r.t = "item" -> Len(ItemMark(r)) [] r.t \in {"block_quote", "image"} -> 4 [] OTHER -> 0) + Width(k + 1)
Indented == ~IsHtml => h.ind = Width(1)
RECURSIVE Sub(_, _, _, _)
Sub(p, i, s, j) == IF i > Len(p) THEN TRUE ELSE IF j > Len(s) THEN FALSE
                   ELSE IF p[i] = s[j] THEN Sub(p, i + 1, s, j + 1) ELSE Sub(p, i, s, j + 1)
RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN <<>>
            ELSE Texts(k - 1) \o (IF Rows[k].t \in {"text", "code", "code_block"} THEN SelectSeq(Rows[k].lit, LAMBDA c : c # LF) ELSE <<>>)
TextKept == ~IsHtml => Sub(Texts(h.w.i - 1), 1, h.out, 1)
=============================================================================
