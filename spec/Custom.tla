------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* Renderers written by a user: a class derived from Renderer, HtmlRenderer*)
(* or ReStructuredTextRenderer with methods of its own, rendering a node of*)
(* a tree (the document or any other).                                     *)
(*                                                                         *)
(* Job: cases, each with                                                   *)
(*   rows, root   the tree, and the row of the node that is rendered       *)
(*   base         "plain", "html" or "rst"                                 *)
(*   o            options of the base, and what the class overrides of the *)
(*                helpers (see Html)                                       *)
(*   plan         for each kind of node with a method of its own, what that*)
(*                method writes: kind, and the operations on entering (ent)*)
(*                and on leaving (lea)                                     *)
(*   obs, log     what the code wrote, and the calls of own methods        *)
(* State: the renderer h of the base (its w is the walk), the calls made.  *)
(***************************************************************************)
EXTENDS Html, Rst

VARIABLES ix, h, log, st
vars == <<ix, h, log, st>>
Case == Job.cases[ix]
Rows == Case.rows
Rst == Case.base = "rst"
O == Case.o

\* rows around the root, outermost first
RECURSIVE Around(_, _, _)
Around(rows, k, d) == IF d < 0 THEN <<>>
                      ELSE IF rows[k].d = d THEN Append(Around(rows, k - 1, d - 1), k)
                      ELSE Around(rows, k - 1, d)
Above == IF Case.root = 1 THEN <<>> ELSE Around(Rows, Case.root - 1, Rows[Case.root].d - 1)
W0 == [i |-> Case.root, stk |-> Above]
RECURSIVE Past(_, _)
Past(rows, k) == IF k > Len(rows) THEN k ELSE IF rows[k].d <= rows[Case.root].d THEN k ELSE Past(rows, k + 1)
Beyond == Past(Rows, Case.root + 1)
\* all of the root's rows entered and left
Over(w) == w.i = Beyond /\ Len(w.stk) = Rows[Case.root].d

Init == /\ ix \in 1..Len(Job.cases) /\ st = "run" /\ log = <<>>
        /\ h = IF Rst THEN [RInitC(O.ic) EXCEPT !.w = W0]
               ELSE [HInit EXCEPT !.w = W0, !.hk = [extra |-> O.extra, wrap |-> O.wrap, up |-> O.up]]

Own == {k \in 1..Len(Case.plan) : Case.plan[k].kind = Rows[EvRow(Rows, h.w)].t}
Write(g, s) == IF Rst THEN ROut(g, s) ELSE HLit(g, s)
OutOp(g, s) == IF Rst THEN ROut(g, s) ELSE IF Case.base = "html" \/ O.wrap THEN HOut(g, s) ELSE HLit(g, s)
Std(g, r, e) == IF Rst THEN RNode(Rows, g, r, e) ELSE HNode(Rows, g, r, e, O)
Op(g, p, r, e) ==
  CASE p.op = "lit" -> Write(g, p.s)
    [] p.op = "out" -> OutOp(g, p.s)
    [] p.op = "cr" -> IF Rst THEN RCr(g) ELSE HCr(g)
    [] p.op = "node" -> IF r.lit = <<>> THEN g ELSE OutOp(g, r.lit)
    [] p.op = "tag" -> HTag(g, p.s, p.as, IF p.self THEN SelfClose ELSE <<>>)
    [] p.op = "super" -> Std(g, r, e)
RECURSIVE Ops(_, _, _, _, _)
Ops(g, ps, k, r, e) == IF k > Len(ps) THEN g ELSE Ops(Op(g, ps[k], r, e), ps, k + 1, r, e)

\* one event: the method of the class, else that of its base, else nothing
More == st = "run" /\ ~Over(h.w)
Event(e) ==
  LET r == Rows[EvRow(Rows, h.w)]
      g == IF Own # {} THEN LET p == Case.plan[CHOOSE k \in Own : TRUE] IN Ops(h, IF e THEN p.ent ELSE p.lea, 1, r, e)
           ELSE IF Case.base = "plain" THEN h ELSE Std(h, r, e)
  IN /\ h' = [g EXCEPT !.w = WalkStep(Rows, h.w)]
     /\ log' = IF Own = {} THEN log ELSE Append(log, <<EvRow(Rows, h.w), e>>)
     /\ UNCHANGED <<ix, st>>
Enter == More /\ ~Leaves(Rows, h.w) /\ Event(TRUE)
Leave == More /\ Leaves(Rows, h.w) /\ Event(FALSE)

Right == h.out = Case.obs /\ log = Case.log
Finish == /\ st = "run" /\ Over(h.w)
          /\ IF Right THEN st' = "ok"
             ELSE /\ PrintT(<<"MISMATCH", ix>>) /\ st' = "bad"
                  /\ IF Job.explain THEN PrintT(<<"EXPECTED", ix, ToJson([out |-> h.out, log |-> log])>>) ELSE TRUE
          /\ UNCHANGED <<ix, h, log>>
Next == Enter \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------ (* properties of the design *)
\* each own method is called once per event: entered in document order, left
\* only after it was entered, and never outside of the root
Once == /\ \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
        /\ \A i \in 1..Len(log) : log[i][1] >= Case.root /\ log[i][1] < Beyond
        /\ \A i \in 1..Len(log) : ~log[i][2] => \E j \in 1..(i - 1) : log[j] = <<log[i][1], TRUE>>
\* nothing is written for kinds without a method
Silent == (Case.base = "plain" /\ log = <<>>) => h.out = <<>>
=============================================================================
