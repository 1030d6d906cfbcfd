-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking a tree given as rows.  State of a walk: i the next row to enter,*)
(* stk the rows entered and not yet left.  The next event is determined:   *)
(* leave the innermost open node when no row below it remains, otherwise   *)
(* enter row i.                                                            *)
(***************************************************************************)
EXTENDS Ast

WalkInit == [i |-> 1, stk |-> <<>>]
Leaves(rows, w) == IF w.stk = <<>> THEN FALSE
                   ELSE IF w.i > Len(rows) THEN TRUE
                   ELSE rows[w.i].d <= rows[w.stk[Len(w.stk)]].d
WalkDone(rows, w) == IF w.i > Len(rows) THEN w.stk = <<>> ELSE FALSE
\* the row the next event is about, and the state after it
EvRow(rows, w) == IF Leaves(rows, w) THEN w.stk[Len(w.stk)] ELSE w.i
WalkStep(rows, w) ==
  IF Leaves(rows, w) THEN [w EXCEPT !.stk = SubSeq(w.stk, 1, Len(w.stk) - 1)]
  ELSE [i |-> w.i + 1, stk |-> IF rows[w.i].t \in ContainerKinds THEN Append(w.stk, w.i) ELSE w.stk]
RECURSIVE WalkFrom(_, _)
WalkFrom(rows, w) == IF WalkDone(rows, w) THEN <<>>
                     ELSE <<<<EvRow(rows, w), ~Leaves(rows, w)>>>> \o WalkFrom(rows, WalkStep(rows, w))
\* all events: row number and whether it is entered
WalkEvents(rows) == WalkFrom(rows, WalkInit)
=============================================================================
