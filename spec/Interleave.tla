----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Calls of different objects that run at the same time.  Each is a        *)
(* sequence of n steps (the lines of the code, in equal parts); a step of  *)
(* one does not touch the other, so each ends with the result it has when  *)
(* it runs alone.                                                          *)
(* Job.gen: prints every schedule with at most Job.switches switches.      *)
(* Otherwise Job.runs are schedules as they were carried out: the calls    *)
(* (numbers into Job.alone), sched the thread of each step, and the        *)
(* results.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, at, sched, res
vars == <<ix, at, sched, res>>
K == Job.threads
N == Job.n
Case == Job.runs[ix]
RECURSIVE Switches(_, _)
Switches(q, i) == IF i >= Len(q) THEN 0 ELSE (IF q[i] = q[i + 1] THEN 0 ELSE 1) + Switches(q, i + 1)

Init == /\ at = [t \in 1..K |-> 0] /\ sched = <<>> /\ res = [t \in 1..K |-> "running"]
        /\ IF Job.gen THEN ix = 0 ELSE ix \in 1..Len(Job.runs)
Turn(t) == /\ at[t] < N /\ at' = [at EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t)
           /\ IF Job.gen THEN TRUE ELSE Case.sched[Len(sched) + 1] = t
           /\ IF Job.gen THEN Switches(sched', 1) <= Job.switches ELSE TRUE
           /\ res' = [res EXCEPT ![t] = IF at'[t] < N THEN @ ELSE IF Job.gen THEN "done" ELSE Job.alone[Case.calls[t]]]
           /\ IF Len(sched') < N * K THEN TRUE
              ELSE IF Job.gen THEN PrintT(<<"SCHEDULE", ToJson(sched')>>)
              ELSE IF \A u \in 1..K : res'[u] = Case.res[u] THEN TRUE ELSE PrintT(<<"MISMATCH", ix>>)
           /\ UNCHANGED ix
Next == \E t \in 1..K : Turn(t)
Spec == Init /\ [][Next]_vars
\* a call that is not done has no result
Waits == \A t \in 1..K : (at[t] < N) <=> (res[t] = "running")
=============================================================================
