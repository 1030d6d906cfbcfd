-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Ordered trees and the operations of the node interface on them.         *)
(* kids[n] is the sequence of the children of node n; a node that is       *)
(* nobody's child is a root.  A node is moved by an operation: it leaves   *)
(* its place and takes the named one, its children go with it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nodes(kids) == DOMAIN kids
Member(q, x) == \E i \in 1..Len(q) : q[i] = x
Index(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* 0 when n is a root
Par(kids, n) == IF \E p \in Nodes(kids) : Member(kids[p], n)
                THEN CHOOSE p \in Nodes(kids) : Member(kids[p], n) ELSE 0
RECURSIVE InTree(_, _, _)
\* n is r or below it
InTree(kids, r, n) == IF n = r THEN TRUE
                      ELSE LET p == Par(kids, n) IN IF p = 0 THEN FALSE ELSE InTree(kids, r, p)
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Cut(kids, c) == [p \in Nodes(kids) |-> Without(kids[p], c)]
PutAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))

OpNames == {"append", "prepend", "before", "after", "unlink"}
\* a is the node the operation is called on, c the one it is given (for
\* unlink: a itself)
Enabled(kids, o, a, c) ==
  CASE o = "unlink" -> a = c
    [] o \in {"append", "prepend"} -> ~InTree(kids, c, a)
    [] o \in {"before", "after"} -> ~InTree(kids, c, a) /\ Par(kids, a) # 0
Apply(kids, o, a, c) ==
  LET k == Cut(kids, c) IN
  CASE o = "unlink" -> k
    [] o = "append" -> [k EXCEPT ![a] = Append(@, c)]
    [] o = "prepend" -> [k EXCEPT ![a] = <<c>> \o @]
    [] o = "before" -> [k EXCEPT ![Par(k, a)] = PutAt(@, Index(@, a), c)]
    [] o = "after" -> [k EXCEPT ![Par(k, a)] = PutAt(@, Index(@, a) + 1, c)]

\* the links of the node objects
FirstOf(q) == IF q = <<>> THEN 0 ELSE q[1]
LastOf(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
Sib(kids, n, d) == LET p == Par(kids, n) IN
  IF p = 0 THEN 0 ELSE LET i == Index(kids[p], n) + d IN IF i \in 1..Len(kids[p]) THEN kids[p][i] ELSE 0
Links(kids) == [par |-> [n \in Nodes(kids) |-> Par(kids, n)],
                first |-> [n \in Nodes(kids) |-> FirstOf(kids[n])],
                last |-> [n \in Nodes(kids) |-> LastOf(kids[n])],
                prv |-> [n \in Nodes(kids) |-> Sib(kids, n, -1)],
                nxt |-> [n \in Nodes(kids) |-> Sib(kids, n, 1)]]

\* one consistent forest
IsForest(kids) ==
  /\ \A n \in Nodes(kids) : Cardinality({<<p, i>> \in Nodes(kids) \X (1..Cardinality(Nodes(kids))) :
                                          i <= Len(kids[p]) /\ kids[p][i] = n}) <= 1
  /\ \A n \in Nodes(kids) : \A k \in 1..Len(kids[n]) : ~InTree(kids, kids[n][k], n)
\* only c moves: all others keep their parents and their order
Frame(k1, k2, c) ==
  /\ \A n \in Nodes(k1) \ {c} : Par(k1, n) = Par(k2, n)
  /\ \A p \in Nodes(k1) : Without(k1[p], c) = Without(k2[p], c)
=============================================================================
