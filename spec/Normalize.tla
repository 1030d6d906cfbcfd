----------------------------- MODULE Normalize ------------------------------
(***************************************************************************)
(* normalize(): two adjacent text siblings become one, as long as there    *)
(* are any.  Rows have depth d, kind t, literal lit, the identity u of the *)
(* node and x, standing for all its other attributes.                      *)
(* Case: rows, the tree before; root, the number of the node normalize was *)
(* called on; after and again, the tree after one and after two calls;     *)
(* back, the identities met walking back from the last node by prv and     *)
(* last_child; html1, html2, its rendering before and after.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, rows, st
vars == <<ix, rows, st>>
Case == Job.cases[ix]
R == Case.root

Init == ix \in 1..Len(Job.cases) /\ rows = Case.rows /\ st = "run"

\* the last row below the root, or the root
RECURSIVE End(_)
End(k) == IF k = Len(rows) THEN k ELSE IF rows[k + 1].d <= rows[R].d THEN k ELSE End(k + 1)
\* the texts that can be joined with the next sibling
Pairs == {k \in R + 1..End(R) - 1 : IF rows[k].t = "text" /\ rows[k + 1].t = "text" THEN rows[k].d = rows[k + 1].d ELSE FALSE}
Merge(k) == SubSeq(rows, 1, k - 1) \o <<[rows[k] EXCEPT !.lit = @ \o rows[k + 1].lit]>> \o SubSeq(rows, k + 2, Len(rows))
Step == /\ st = "run"
        /\ LET S == Pairs IN
           IF S = {} THEN st' = "end" /\ UNCHANGED rows
           ELSE \E k \in IF Job.any THEN S ELSE {CHOOSE k \in S : \A j \in S : k <= j} : rows' = Merge(k) /\ UNCHANGED st
        /\ UNCHANGED ix

SameRow(p, q) == IF p.t = "text" THEN q.t = "text" /\ p.d = q.d /\ p.lit = q.lit
                 ELSE p = q
SameRows(p, q) == IF Len(p) # Len(q) THEN FALSE ELSE \A k \in 1..Len(p) : SameRow(p[k], q[k])
RECURSIVE BackWalk(_, _, _)
\* identities of rows i..j of one forest, last tree first, a node before its
\* own children
LastRoot(q, i, j) == CHOOSE k \in i..j : q[k].d = q[i].d /\ \A m \in k + 1..j : q[m].d > q[i].d
BackWalk(q, i, j) == IF i > j THEN <<>>
                     ELSE LET k == LastRoot(q, i, j)
                          IN <<q[k].u>> \o BackWalk(q, k + 1, j) \o BackWalk(q, i, k - 1)
Right == /\ SameRows(rows, Case.after)
         /\ Case.after = Case.again
         /\ Case.back = BackWalk(Case.after, 1, Len(Case.after))
         /\ Case.html1 = Case.html2
Compare == /\ st = "end"
           /\ IF Right THEN st' = "ok" ELSE st' = "bad" /\ PrintT(<<"MISMATCH", ix>>)
           /\ UNCHANGED <<ix, rows>>
Next == Step \/ Compare
Spec == Init /\ [][Next]_vars

------------------------------------------------ (* properties of the design *)
RECURSIVE Text(_, _)
Text(q, k) == IF k > Len(q) THEN <<>> ELSE q[k].lit \o Text(q, k + 1)
\* no text is lost or moved, whatever the order of the merges
TextKept == Text(rows, 1) = Text(Case.rows, 1)
Others(q) == SelectSeq(q, LAMBDA r : r.t # "text")
OthersKept == Others(rows) = Others(Case.rows)
\* outside of the root nothing happens, inside no pair is left at the end
Final == st = "end" => Pairs = {}
Fewer == [][Len(rows') <= Len(rows)]_vars
=============================================================================
