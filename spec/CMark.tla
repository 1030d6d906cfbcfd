------------------------------- MODULE CMark -------------------------------
(***************************************************************************)
(* The parser as a state machine, and its conformance to the code.         *)
(*                                                                         *)
(*   ph    "blocks": lines are being consumed; "tree": the inlines of the  *)
(*         closed tree are produced, leaf by leaf in document order;       *)
(*         "inline": the tokens of one leaf; "done"                        *)
(*   ix    the input so far, as numbers of alphabet elements (Mode "enum") *)
(*         or the number of the case (Mode "case")                         *)
(*   b     block state (Blocks), after the end of input [doc, refs]        *)
(*   todo  blocks whose rows are still to be produced                      *)
(*   x     inline state (Inlines) of the leaf being processed              *)
(*   rows  the tree so far                                                 *)
(*                                                                         *)
(* Job (a JSON file): mode "lines" | "tokens" | "cases", alph (texts), max,*)
(* smart, proj, obs: what the code returned for every input, as projected  *)
(* rows (texts of mode "tokens" are concatenated, between pre and post; of   *)
(* mode "lines" each is one line).                                         *)
(***************************************************************************)
EXTENDS Project

Mode == Job.mode
Alph == Job.alph
MaxLen == Job.max
Obs == Job.obs
K == Len(Alph)

VARIABLES ph, ix, b, todo, x, rows
vars == <<ph, ix, b, todo, x, rows>>

\* number of an input among all inputs, shorter ones first
RECURSIVE Pow(_, _)
Pow(m, e) == IF e = 0 THEN 1 ELSE m * Pow(m, e - 1)
RECURSIVE Rank(_, _)
Rank(q, acc) == IF q = <<>> THEN acc ELSE Rank(Tail(q), acc * K + (Head(q) - 1))
RECURSIVE Before(_)
Before(n) == IF n = 0 THEN 0 ELSE Pow(K, n - 1) + Before(n - 1)
ObsOf(q) == IF Mode = "cases" THEN Obs[q] ELSE Obs[Before(Len(q)) + Rank(q, 0) + 1]

RECURSIVE TextOf(_)
TextOf(q) == IF q = <<>> THEN <<>> ELSE Alph[Head(q)] \o TextOf(Tail(q))
Smart == Job.smart

X0 == InlInit(<<>>, FALSE)
Init == /\ ph = "blocks" /\ todo = <<>> /\ x = X0 /\ rows = <<>>
        /\ IF Mode = "cases" THEN ix \in 1..Len(Alph) ELSE ix = <<>>
        /\ b = BlockInit

AddLine == /\ ph = "blocks" /\ Mode = "lines" /\ Len(ix) < MaxLen
           /\ \E k \in 1..K : ix' = Append(ix, k) /\ b' = LineStep(b, Alph[k])
           /\ UNCHANGED <<ph, todo, x, rows>>
AddToken == /\ ph = "blocks" /\ Mode = "tokens" /\ Len(ix) < MaxLen
            /\ \E k \in 1..K : ix' = Append(ix, k)
            /\ UNCHANGED <<ph, b, todo, x, rows>>
NextLine == /\ ph = "blocks" /\ Mode = "cases"
            /\ LET ls == SplitLines(Alph[ix])
               IN b.n < Len(ls) /\ b' = LineStep(b, ls[b.n + 1])
            /\ UNCHANGED <<ph, ix, todo, x, rows>>
EndInput ==
  /\ ph = "blocks"
  /\ LET e == CASE Mode = "lines" -> IF ix = <<>> THEN BlockEnd(LineStep(b, <<>>)) ELSE BlockEnd(b)
                [] Mode = "tokens" -> BlocksOf(Job.pre \o TextOf(ix) \o Job.post)
                [] OTHER -> BlockEnd(b)
     IN b' = e /\ todo' = <<[d |-> 0, b |-> e.doc]>>
  /\ Mode = "cases" => b.n = Len(SplitLines(Alph[ix]))
  /\ ph' = "tree" /\ UNCHANGED <<ix, x, rows>>
Node == /\ ph = "tree" /\ todo # <<>>
        /\ LET h == Head(todo)
           IN /\ rows' = Append(rows, BlockRow(h.b, h.d))
              /\ IF HasText(h.b)
                 THEN /\ ph' = "inline" /\ x' = InlInit(h.b.txt, Smart) /\ todo' = Tail(todo)
                 ELSE /\ todo' = Children(h.b.kids, 1, h.d + 1) \o Tail(todo) /\ UNCHANGED <<ph, x>>
        /\ UNCHANGED <<ix, b>>
Token == /\ ph = "inline" /\ ~InlDone(x)
         /\ x' = InlStep(x, b.refs) /\ UNCHANGED <<ph, ix, b, todo, rows>>
CloseLeaf == /\ ph = "inline" /\ InlDone(x)
             /\ rows' = rows \o InlRows(InlEnd(x), 1, rows[Len(rows)].d + 1, <<>>)
             /\ x' = X0 /\ ph' = "tree" /\ UNCHANGED <<ix, b, todo>>
\* the observation of the real code is compared here
Compare == /\ ph = "tree" /\ todo = <<>>
           /\ IF Proj(Job.proj, rows) = ObsOf(ix) THEN ph' = "done"
              ELSE PrintT(<<"MISMATCH", ix>>) /\ ph' = "bad"
           /\ UNCHANGED <<ix, b, todo, x, rows>>
Next == AddLine \/ AddToken \/ NextLine \/ EndInput \/ Node \/ Token \/ CloseLeaf \/ Compare
Spec == Init /\ [][Next]_vars

------------------------------------------------ (* properties of the design *)
\* every open block can contain the next one; only the last one holds lines
SpineOk == ph = "blocks" =>
  /\ b.stk[1].t = "document"
  /\ \A k \in 1..Len(b.stk) - 1 : CanContain(b.stk[k].t, b.stk[k + 1].t)
  /\ \A k \in 2..Len(b.stk) : b.stk[k].t # "item" => b.stk[k].txt = <<>> \/ AcceptsLines(b.stk[k].t)
\* every closed child ends no later than now, children in order, inside parent
RECURSIVE PosOk(_)
PosOk(q) == \A k \in 1..Len(q.kids) :
  LET c == q.kids[k] IN
  /\ c.sl >= q.sl /\ c.sl <= c.el /\ (q.el > 0 => c.el <= q.el)
  /\ (k > 1 => q.kids[k - 1].el <= c.sl)
  /\ CanContain(q.t, c.t) /\ PosOk(c)
Nested == IF ph = "blocks" THEN \A k \in 1..Len(b.stk) : PosOk(b.stk[k]) ELSE ph = "tree" => PosOk(b.doc)
\* a list has items, an item of an ordered list has the list's kind
RECURSIVE ListsOk(_)
ListsOk(q) == /\ q.t = "list" => q.kids # <<>> \/ ph = "blocks"
              /\ \A k \in 1..Len(q.kids) :
                   /\ q.t = "list" => q.kids[k].lt = q.lt /\ q.kids[k].dl = q.dl /\ q.kids[k].ch = q.ch
                   /\ ListsOk(q.kids[k])
Lists == IF ph = "blocks" THEN \A k \in 1..Len(b.stk) : ListsOk(b.stk[k]) ELSE ListsOk(b.doc)
\* the first definition of a label wins
RefsOnce == \A i, j \in 1..Len(b.refs) : b.refs[i].lab = b.refs[j].lab => i = j
\* inlines: names of delimiters and brackets are in the output, in order
InlineOk == ph = "inline" =>
  /\ x.p \in 1..Len(x.s) + 1
  /\ \A k \in 1..Len(x.ds) : \E m \in 1..Len(x.out) : x.out[m].u = x.ds[k].u /\ Len(x.out[m].lit) = x.ds[k].n
  /\ \A k \in 1..Len(x.bs) : \E m \in 1..Len(x.out) : x.out[m].u = x.bs[k].u
  /\ \A k \in 1..Len(x.bs) - 1 : x.bs[k].u < x.bs[k + 1].u /\ x.bs[k].dl <= x.bs[k + 1].dl
\* no link in a link (autolinks aside: the standard's rule is about brackets)
RECURSIVE NoLink(_)
NoLink(its) == \A k \in 1..Len(its) : (its[k].t # "link" \/ its[k].au) /\ NoLink(its[k].kids)
RECURSIVE LinksOk(_)
LinksOk(its) == \A k \in 1..Len(its) :
  IF its[k].t = "link" THEN NoLink(its[k].kids) ELSE LinksOk(its[k].kids)
NoNestedLinks == ph = "inline" => LinksOk(x.out)

\* what is closed stays as it is (but for looseness flags): every closed
\* child stays a child, with the same text and position
RECURSIVE SameBlock(_, _)
SameBlock(p, q) == /\ p.t = q.t /\ p.txt = q.txt /\ p.sl = q.sl /\ p.sc = q.sc /\ p.el = q.el /\ p.ec = q.ec
                   /\ Len(p.kids) = Len(q.kids) /\ \A k \in 1..Len(p.kids) : SameBlock(p.kids[k], q.kids[k])
Stable == [][(ph = "blocks" /\ ph' = "blocks") =>
  \A k \in 1..Min(Len(b.stk), Len(b'.stk)) :
    (\A j \in 1..k : b.stk[j].sl = b'.stk[j].sl /\ b.stk[j].sc = b'.stk[j].sc /\ b.stk[j].t = b'.stk[j].t)
    => /\ Len(b.stk[k].kids) <= Len(b'.stk[k].kids)
       /\ \A j \in 1..Len(b.stk[k].kids) : SameBlock(b.stk[k].kids[j], b'.stk[k].kids[j])]_vars
\* every token consumes input
Progress == [][(ph = "inline" /\ ph' = "inline") => x'.p > x.p]_vars
=============================================================================
