--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The cmark command and the directory it works in.                        *)
(*                                                                         *)
(* fs: the content of every file, by name; "in1", "in2", ... are the       *)
(* inputs, "out1", ... the targets.  A run takes content d from standard   *)
(* input or from the file in<d>, and writes                                *)
(*   html   to standard output, or over the -o file                        *)
(*   json   the same, with -aj                                             *)
(*   ast    to standard output, with -a (an -o file is then left out or    *)
(*          empty: nothing else is written)                                *)
(* and nothing on standard error, and ends with status 0.  No other file   *)
(* is made or changed.                                                     *)
(*                                                                         *)
(* Job.base[format][d]: what the library gives for content d.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, hist, fs, st
vars == <<ix, hist, fs, st>>

Contents == 1..Job.contents
Sources == {"file", "stdin"}
Targets == 0..Job.targets            \* 0: standard output
Formats == {"html", "json", "ast"}
Run(s, d, f, t) == [s |-> s, d |-> d, f |-> f, t |-> t]
Runs == {Run(s, d, f, t) : s \in Sources, d \in Contents, f \in Formats, t \in Targets}
Names == {Job.inputs[d] : d \in Contents} \cup {Job.outputs[t] : t \in 1..Job.targets}
\* "absent" for a file that is not there
Start == [n \in Names |-> IF \E d \in Contents : Job.inputs[d] = n
                          THEN Job.content[CHOOSE d \in Contents : Job.inputs[d] = n] ELSE "absent"]
Stdout(r) == IF r.t = 0 \/ r.f = "ast" THEN Job.base[r.f][r.d] ELSE Job.nothing
After(r) == IF r.t = 0 THEN fs
            ELSE IF r.f = "ast" THEN [fs EXCEPT ![Job.outputs[r.t]] = Job.nothing]
            ELSE [fs EXCEPT ![Job.outputs[r.t]] = Job.base[r.f][r.d]]

Init == /\ fs = Start /\ hist = <<>> /\ st = "run"
        /\ IF Job.gen THEN ix = 0 ELSE ix \in 1..Len(Job.runs)
Gen == /\ Job.gen /\ Len(hist) < Job.max
       /\ \E r \in Runs :
            /\ hist' = Append(hist, r) /\ fs' = After(r)
            /\ IF Len(hist') = Job.max THEN PrintT(<<"HISTORY", ToJson(hist')>>) ELSE TRUE
       /\ UNCHANGED <<ix, st>>
Ev == Job.runs[ix][Len(hist) + 1]
\* an -o file that goes with -a may be left as it was
SameFiles(r, want) ==
  /\ DOMAIN Ev.fs = Names
  /\ \A n \in Names : \/ Ev.fs[n] = want[n]
                      \/ r.f = "ast" /\ r.t > 0 /\ n = Job.outputs[r.t] /\ Ev.fs[n] = fs[n]
Replay == /\ ~Job.gen /\ st = "run" /\ Len(hist) < Len(Job.runs[ix])
          /\ LET r == Ev.r  good == /\ r \in Runs /\ Ev.status = 0 /\ Ev.out = Stdout(r) /\ Ev.err = Job.nothing
                                    /\ SameFiles(r, After(r)) IN
             IF good THEN /\ hist' = Append(hist, r) /\ st' = "run"
                          /\ fs' = [n \in Names |-> Ev.fs[n]]
             ELSE /\ PrintT(<<"MISMATCH", ix, Len(hist) + 1>>)
                  /\ st' = "bad" /\ UNCHANGED <<hist, fs>>
          /\ UNCHANGED ix
Next == Gen \/ Replay
Spec == Init /\ [][Next]_vars
\* the inputs are never written
Inputs == \A d \in Contents : fs[Job.inputs[d]] = Job.content[d]
=============================================================================
