------------------------------- MODULE Walks --------------------------------
(***************************************************************************)
(* Whole walks of the code against Walk, event by event.                   *)
(* Case: rows (depth and kind) and ev, the events [n, e] that were         *)
(* reported, n the number of a row; con, what is_container() says of each. *)
(***************************************************************************)
EXTENDS Walk

VARIABLES ix, w, k, st
vars == <<ix, w, k, st>>
Case == Job.cases[ix]
Init == ix \in 1..Len(Job.cases) /\ w = WalkInit /\ k = 1 /\ st = "run"
Bad == st' = "bad" /\ PrintT(<<"MISMATCH", ix>>) /\ UNCHANGED <<ix, w, k>>
Event == /\ st = "run" /\ ~WalkDone(Case.rows, w)
         /\ IF k > Len(Case.ev) THEN Bad
            ELSE IF Case.ev[k].n # EvRow(Case.rows, w) THEN Bad
            ELSE IF Case.ev[k].e = Leaves(Case.rows, w) THEN Bad
            ELSE w' = WalkStep(Case.rows, w) /\ k' = k + 1 /\ UNCHANGED <<ix, st>>
Stop == /\ st = "run" /\ WalkDone(Case.rows, w)
        /\ IF k = Len(Case.ev) + 1 /\ Case.con = [i \in 1..Len(Case.rows) |-> Case.rows[i].t \in ContainerKinds] THEN st' = "ok" /\ UNCHANGED <<ix, w, k>> ELSE Bad
Next == Event \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
