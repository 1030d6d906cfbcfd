------------------------------- MODULE Prefix -------------------------------
(***************************************************************************)
(* Documents growing line by line.  The block machine consumes one line    *)
(* per step; Job holds, for each document, what the code returned for      *)
(* every prefix of whole lines: obs[k] is a sequence of groups [b, i], b   *)
(* the row of a block and i the rows of its inlines.  What the machine     *)
(* says is closed after k lines must be the same in every longer prefix.   *)
(***************************************************************************)
EXTENDS Project

VARIABLES ix, b, pos, st
vars == <<ix, b, pos, st>>
Case == Job.cases[ix]
Ls == SplitLines(Case.text)
O(k) == Case.obs[k]

Init == /\ ix \in 1..Len(Job.cases) /\ st = "grow" /\ pos = 0 /\ b = BlockInit

\* fields of a row: depth 1, kind 2, tight 12, position 13..16
RECURSIVE OnChain(_, _, _)
\* no block after i stands at its depth or above
OnChain(g, i, j) == IF j > Len(g) THEN TRUE
                    ELSE IF g[j].b[1] <= g[i].b[1] THEN FALSE ELSE OnChain(g, i, j + 1)
IsOpen(s, g, i) ==
  LET r == g[i].b d == r[1] + 1 IN
  IF d > Len(s.stk) THEN FALSE
  ELSE IF ~(s.stk[d].t = r[2] /\ s.stk[d].sl = r[13] /\ s.stk[d].sc = r[14]) THEN FALSE
  ELSE OnChain(g, i, i + 1)
SameBut(p, q) == \A k \in 1..16 : IF k = 12 THEN (p[12] \/ ~q[12]) ELSE p[k] = q[k]
Kept(s, g, i, z, refs) ==
  IF IsOpen(s, g, i) THEN TRUE
  ELSE IF i > Len(z) THEN FALSE
  ELSE IF SameBut(g[i].b, z[i].b) THEN (IF refs THEN g[i].i = z[i].i ELSE TRUE) ELSE FALSE
Refs(s) == BlockEnd(s).refs
Extends(s, k, t, m) ==
  LET e == Refs(s) = Refs(t) IN \A i \in 1..Len(O(k)) : Kept(s, O(k), i, O(m), e)

\* one more line: the code's trees before and after it
Grow == /\ st = "grow" /\ pos < Len(Ls)
        /\ LET c == LineStep(b, Ls[pos + 1]) IN
           /\ b' = c /\ pos' = pos + 1
           /\ IF pos = 0 THEN st' = "grow"
              ELSE IF Extends(b, pos, c, pos + 1) THEN st' = "grow"
              ELSE st' = "bad" /\ PrintT(<<"MISMATCH", ix, pos>>)
        /\ UNCHANGED ix
Done == /\ st = "grow" /\ pos = Len(Ls) /\ st' = "ok" /\ UNCHANGED <<ix, b, pos>>
Next == Grow \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------- (* the same of the machine *)
\* the rows of what is closed after a line are rows of it after the next one
RECURSIVE Same(_, _)
Same(p, q) == /\ p.t = q.t /\ p.txt = q.txt /\ p.sl = q.sl /\ p.sc = q.sc /\ p.el = q.el /\ p.ec = q.ec
              /\ p.info = q.info /\ p.lev = q.lev /\ (p.tight \/ ~q.tight)
              /\ Len(p.kids) = Len(q.kids) /\ \A k \in 1..Len(p.kids) : Same(p.kids[k], q.kids[k])
RECURSIVE Spine(_, _, _)
Spine(s, q, k) ==
  IF k > Len(s.stk) THEN TRUE
  ELSE LET p == s.stk[k] IN
       /\ Len(q.kids) >= Len(p.kids)
       /\ \A j \in 1..Len(p.kids) : Same(p.kids[j], q.kids[j])
       /\ IF k = Len(s.stk) \/ Len(q.kids) = Len(p.kids) THEN TRUE
          ELSE IF s.stk[k + 1].t = q.kids[Len(p.kids) + 1].t THEN Spine(s, q.kids[Len(p.kids) + 1], k + 1) ELSE TRUE
\* closing everything now keeps what is closed
EndKeeps == Spine(b, BlockEnd(b).doc, 1)
=============================================================================
