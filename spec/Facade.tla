------------------------------- MODULE Facade -------------------------------
(***************************************************************************)
(* commonmark(text, format): the call equals parsing with a new parser of  *)
(* default options and then the renderer or dump of the format; a format   *)
(* that is none of the four is refused with ValueError, and nothing is     *)
(* returned or printed.  Nothing is remembered from call to call.          *)
(*                                                                         *)
(* Job.formats: the formats used, with kind html, rst, json, ast or other. *)
(* Job.base[kind][d]: what the two steps return and print for text d.      *)
(* Job.gen: prints the histories of Job.max calls; otherwise Job.runs are  *)
(* the histories with what the calls did.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, hist, st
vars == <<ix, hist, st>>

Texts == 1..Job.texts
Formats == 1..Len(Job.formats)
Kind(f) == Job.formats[f]
Call(f, d) == [f |-> f, d |-> d]
Expected(f, d) ==
  IF Kind(f) = "other" THEN [raised |-> "ValueError", ret |-> "none", printed |-> ""]
  ELSE [raised |-> "", ret |-> Job.base[Kind(f)][d].ret, printed |-> Job.base[Kind(f)][d].printed]

Init == /\ hist = <<>> /\ st = "run"
        /\ IF Job.gen THEN ix = 0 ELSE ix \in 1..Len(Job.runs)
Gen == /\ Job.gen /\ Len(hist) < Job.max
       /\ \E f \in Formats, d \in Texts :
            /\ hist' = Append(hist, Call(f, d))
            /\ IF Len(hist') = Job.max THEN PrintT(<<"HISTORY", ToJson(hist')>>) ELSE TRUE
       /\ UNCHANGED <<ix, st>>
Ev == Job.runs[ix][Len(hist) + 1]
Right == /\ Ev.f \in Formats /\ Ev.d \in Texts
         /\ [raised |-> Ev.raised, ret |-> Ev.ret, printed |-> Ev.printed] = Expected(Ev.f, Ev.d)
Replay == /\ ~Job.gen /\ st = "run" /\ Len(hist) < Len(Job.runs[ix])
          /\ IF Right THEN hist' = Append(hist, Call(Ev.f, Ev.d)) /\ st' = "run"
             ELSE hist' = hist /\ st' = "bad" /\ PrintT(<<"MISMATCH", ix, Len(hist) + 1>>)
          /\ UNCHANGED ix
Next == Gen \/ Replay
Spec == Init /\ [][Next]_vars
\* a call is added at a time
OneByOne == [][Len(hist') <= Len(hist) + 1]_vars
=============================================================================
