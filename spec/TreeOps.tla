------------------------------ MODULE TreeOps -------------------------------
(***************************************************************************)
(* Conformance of the node operations.  The states of real node objects    *)
(* that were reached are numbered; obs[q] has their links, edges[q] the    *)
(* operations that were carried out there and where they led.  With        *)
(* Job.full the graph claims to be complete: every enabled operation was   *)
(* tried in every state.                                                   *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES q, kids, st
vars == <<q, kids, st>>

N == Job.n
None == [n \in 1..N |-> <<>>]
Init == q \in {Job.starts[i] : i \in 1..Len(Job.starts)} /\ kids = None /\ st = "ok"
Agrees(k, z) == LET l == Links(k) o == Job.obs[z] IN
  l.par = o.par /\ l.first = o.first /\ l.last = o.last /\ l.prv = o.prv /\ l.nxt = o.nxt
Do == /\ st = "ok"
      /\ \E i \in 1..Len(Job.edges[q]) :
           LET e == Job.edges[q][i] k == Apply(kids, e.o, e.a, e.c) IN
           /\ Assert(Enabled(kids, e.o, e.a, e.c), <<"not enabled", q, e>>)
           /\ IF e.to = 0 THEN /\ PrintT(<<"MISMATCH", q, i>>) /\ st' = "bad" /\ UNCHANGED <<q, kids>>
              ELSE /\ q' = e.to /\ kids' = k
                   /\ IF Agrees(k, e.to) THEN st' = "ok" ELSE PrintT(<<"MISMATCH", q, i>>) /\ st' = "bad"
Next == Do
Spec == Init /\ [][Next]_vars

Forest == IsForest(kids)
Complete == (Job.full /\ st = "ok") =>
  \A o \in OpNames, a, c \in 1..N :
    Enabled(kids, o, a, c) => \E i \in 1..Len(Job.edges[q]) :
      Job.edges[q][i].o = o /\ Job.edges[q][i].a = a /\ Job.edges[q][i].c = c
Framed == [][\E c \in 1..N : Frame(kids, kids', c)]_vars
=============================================================================
