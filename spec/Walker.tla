------------------------------- MODULE Walker -------------------------------
(***************************************************************************)
(* The walker.  pend is the event that will be reported next: the root is  *)
(* entered first; the event after another one is determined when that one  *)
(* is reported, so the node reported may then be moved or removed.         *)
(* resume(n, e) makes the walk go on with that event.  con[n]: n can have  *)
(* children.                                                               *)
(* Job: obs as in TreeOps; edges[q] with o one of the tree operations,     *)
(* "walk" (a walker over a is made), "next" (res: the event reported, node *)
(* 0 at the end) and "resume" (to node a, entering e).                     *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES q, kids, root, pend, st
vars == <<q, kids, root, pend, st>>
N == Job.n
Con == Job.con
None == [n \in 1..N |-> <<>>]
End == [n |-> 0, e |-> FALSE]
Ev(n, e) == [n |-> n, e |-> e]

Init == /\ q \in {Job.starts[i] : i \in 1..Len(Job.starts)} /\ kids = None /\ root = 0 /\ pend = End /\ st = "ok"
\* what comes after event x in a walk from r
After(k, r, x) ==
  IF x.e /\ Con[x.n] THEN (IF k[x.n] # <<>> THEN Ev(k[x.n][1], TRUE) ELSE Ev(x.n, FALSE))
  ELSE IF x.n = r THEN End
  ELSE LET s == Sib(k, x.n, 1) IN IF s # 0 THEN Ev(s, TRUE) ELSE Ev(Par(k, x.n), FALSE)
\* operations keep what is yet to be walked below the root, and give children
\* only to nodes that can have them
InDomain(k) == /\ \A n \in 1..N : k[n] # <<>> => Con[n]
               /\ IF pend.n = 0 THEN TRUE ELSE InTree(k, root, pend.n)
Can(e) ==
  CASE e.o = "walk" -> root = 0
    [] e.o = "next" -> root # 0
    [] e.o = "resume" -> IF root = 0 THEN FALSE ELSE IF InTree(kids, root, e.a) THEN e.e \/ Con[e.a] ELSE FALSE
    [] OTHER -> IF Enabled(kids, e.o, e.a, e.c) THEN InDomain(Apply(kids, e.o, e.a, e.c)) ELSE FALSE
Do == /\ st = "ok"
      /\ \E i \in 1..Len(Job.edges[q]) :
           LET e == Job.edges[q][i] IN
           /\ Can(e)
           /\ IF e.to = 0 THEN PrintT(<<"MISMATCH", q, i>>) /\ st' = "bad" /\ UNCHANGED <<q, kids, root, pend>>
              ELSE /\ q' = e.to
                   /\ kids' = IF e.o \in OpNames THEN Apply(kids, e.o, e.a, e.c) ELSE kids
                   /\ root' = IF e.o = "walk" THEN e.a ELSE root
                   /\ pend' = CASE e.o = "walk" -> Ev(e.a, TRUE)
                                [] e.o = "resume" -> Ev(e.a, e.e)
                                [] e.o = "next" -> IF pend.n = 0 THEN End ELSE After(kids, root, pend)
                                [] OTHER -> pend
                   /\ IF e.o # "next" THEN st' = "ok"
                      ELSE IF e.a = pend.n /\ (e.e = pend.e \/ pend.n = 0) THEN st' = "ok"
                      ELSE PrintT(<<"MISMATCH", q, i>>) /\ st' = "bad"
Next == Do
Spec == Init /\ [][Next]_vars

Forest == IsForest(kids)
\* the walk stays below its root
Inside == pend.n # 0 => InTree(kids, root, pend.n)
Has(o, a, c, e) == \E i \in 1..Len(Job.edges[q]) :
  LET x == Job.edges[q][i] IN x.o = o /\ (o = "next" \/ (x.a = a /\ x.c = c /\ x.e = e))
Complete == (Job.full /\ st = "ok") =>
  IF root = 0
  THEN \A o \in OpNames, a, c \in 1..N :
         IF Enabled(kids, o, a, c) THEN (InDomain(Apply(kids, o, a, c)) => Has(o, a, c, FALSE)) ELSE TRUE
  ELSE /\ Has("next", 0, 0, FALSE)
       /\ \A a \in 1..N : InTree(kids, root, a) =>
            Has("resume", a, 0, TRUE) /\ (Con[a] => Has("resume", a, 0, FALSE))
       /\ Job.edits => \A o \in OpNames, a, c \in 1..N :
            IF Enabled(kids, o, a, c) THEN (InDomain(Apply(kids, o, a, c)) => Has(o, a, c, FALSE)) ELSE TRUE
=============================================================================
