------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A session with several parsers and renderers.  Nothing but the trees    *)
(* that were returned is remembered: a result is determined by the text    *)
(* or tree and by the options, whatever was done before, also with the     *)
(* same object, and also when a call was broken off by an exception.       *)
(*                                                                         *)
(* trees: for every tree returned so far its text d, whether it was parsed *)
(* with smart punctuation, s, and how it was edited since, e (0 not,       *)
(* 1 normalized, 2 changed everywhere in place): an edit changes that tree *)
(* and no other, neither one returned before nor one returned later.       *)
(*                                                                         *)
(* Job.gen: histories are printed, up to Job.max operations long.          *)
(* Otherwise Job.runs are histories as they went with the real objects:    *)
(* each event with its result, the trees now, and the option dictionaries  *)
(* now.  Job.base has the results of fresh processes.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, hist, trees, st
vars == <<ix, hist, trees, st>>

\* operations: o, on object x, with text or tree y, broken off at k
Op(o, x, y, k) == [o |-> o, x |-> x, y |-> y, k |-> k]
Parsers == 1..Len(Job.smart)
Renderers == 1..Job.renderers
Texts == 1..Job.texts
Cuts == {Job.cuts[i] : i \in 1..Len(Job.cuts)}
Formats == 1..3
Ops(ts) ==
  {Op("parse", p, d, 0) : p \in Parsers, d \in Texts}
  \cup {Op("broken", p, d, k) : p \in Parsers, d \in Texts, k \in Cuts}
  \cup {Op("render", r, t, 0) : r \in Renderers, t \in 1..Len(ts)}
  \cup {Op("stopped", r, t, k) : r \in Renderers, t \in 1..Len(ts), k \in Cuts}
  \cup {Op("dump", 0, t, 0) : t \in 1..Len(ts)}
  \cup {Op("edit", e, t, 0) : e \in 1..2, t \in {u \in 1..Len(ts) : ts[u].e = 0}}
  \cup {Op("new", p, 0, 0) : p \in Parsers}
  \cup {Op("facade", f, d, 0) : f \in Formats, d \in Texts}
\* in long histories the trees are dropped now and then
Forget == Op("forget", 0, 0, 0)
Trees(ts, op) ==
  CASE op.o = "parse" -> Append(ts, [d |-> op.y, s |-> Job.smart[op.x], e |-> 0])
    [] op.o = "edit" -> [ts EXCEPT ![op.y].e = op.x]
    [] op.o = "forget" -> <<>>
    [] OTHER -> ts
S(t) == (2 * t.e) + (IF t.s THEN 2 ELSE 1)
Result(ts, op) ==
  CASE op.o = "parse" -> Job.base.tree[op.y][IF Job.smart[op.x] THEN 2 ELSE 1]
    [] op.o = "render" -> Job.base.out[op.x][ts[op.y].d][S(ts[op.y])]
    [] op.o = "dump" -> Job.base.dump[ts[op.y].d][S(ts[op.y])]
    [] op.o = "facade" -> Job.base.facade[op.x][op.y]
    [] OTHER -> "none"

Init == /\ trees = <<>> /\ st = "run" /\ hist = <<>>
        /\ IF Job.gen THEN ix = 0 ELSE ix \in 1..Len(Job.runs)
Gen == /\ Job.gen /\ Len(hist) < Job.max
       /\ \E op \in Ops(trees) :
            /\ hist' = Append(hist, op) /\ trees' = Trees(trees, op)
            /\ IF Len(hist') = Job.max THEN PrintT(<<"HISTORY", ToJson(hist')>>) ELSE TRUE
       /\ UNCHANGED <<ix, st>>
Ev == Job.runs[ix][Len(hist) + 1]
Right(ts) ==
  IF ~(Ev.op \in Ops(trees) \cup {Forget}) THEN FALSE
  ELSE IF Ev.res # Result(trees, Ev.op) THEN FALSE
  ELSE IF Len(Ev.trees) # Len(ts) THEN FALSE
  ELSE /\ \A t \in 1..Len(ts) : Ev.trees[t] = Job.base.tree[ts[t].d][S(ts[t])]
       /\ Ev.opts = Job.base.opts
Replay == /\ ~Job.gen /\ st = "run" /\ Len(hist) < Len(Job.runs[ix])
          /\ LET ts == Trees(trees, Ev.op) IN
             /\ trees' = ts
             /\ IF Right(ts) THEN hist' = Append(hist, Ev.op) /\ st' = "run"
                ELSE st' = "bad" /\ hist' = hist /\ PrintT(<<"MISMATCH", ix, Len(hist) + 1>>)
          /\ UNCHANGED ix
Next == Gen \/ Replay
Spec == Init /\ [][Next]_vars
\* trees are only ever added, and keep what they were made from
Grows == [][\/ trees' = <<>>
            \/ /\ Len(trees') >= Len(trees)
               /\ \A t \in 1..Len(trees) : trees'[t].d = trees[t].d /\ trees'[t].s = trees[t].s]_vars
=============================================================================
