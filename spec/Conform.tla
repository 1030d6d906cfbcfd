------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Conformance of the code to the parser specification, a whole document   *)
(* in one step (CMark takes the same function apart into its transitions). *)
(* Job: cases, each with its text, smart, the projection p and what the    *)
(* code returned under that projection.                                    *)
(***************************************************************************)
EXTENDS Project

VARIABLES ix, st
vars == <<ix, st>>
Case == Job.cases[ix]
Expected == Proj(Case.p, Parse(Case.text, Case.smart))
Init == ix \in 1..Len(Job.cases) /\ st = "new"
Agree == /\ st = "new" /\ Expected = Case.obs
         /\ st' = "ok" /\ UNCHANGED ix
Differ == /\ st = "new" /\ Expected # Case.obs
          /\ PrintT(<<"MISMATCH", ix>>) /\ (Job.explain => PrintT(<<"EXPECTED", ix, ToJson(Expected)>>))
          /\ st' = "bad" /\ UNCHANGED ix
Next == Agree \/ Differ
Spec == Init /\ [][Next]_vars
=============================================================================
