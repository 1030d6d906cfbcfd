------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* Every string is processed to completion, in time that grows no faster   *)
(* than a polynomial.                                                      *)
(*                                                                         *)
(* A family of documents has a shape over two or three tokens and a number *)
(* n: the documents of a series are those for growing n.  A measurement of *)
(* a document has, for each stage (parse, html, safe, rst, json, ast), how *)
(* it ended and the processor time in ms.  A series is in order when each  *)
(* stage of each document ends by itself without an exception, a document  *)
(* of fewer than 1000 characters needs less than Job.short ms, and from    *)
(* one document to the next, of at most double the size per step, the time *)
(* of no stage grows faster than n^Job.degree; times below Job.floor ms    *)
(* count as that.                                                          *)
(*                                                                         *)
(* Job.gen: prints the families; otherwise Job.runs are series.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES ix, k, cost, st
vars == <<ix, k, cost, st>>

\* shapes: how the tokens a, b, c make the document for n
\*   power  a^n          pair  (ab)^n       then   a^n b^n     before a b^n c
\*   mirror a^n c b^n    lines (a^n b NL)^m quoted b (c a)^n   paras  (a b NL NL)^n
\*   stairs a b NL aa b NL aaa b NL ...
\*   count  a 0 b a 1 b a 2 b ... a n-1 b, the numbers in decimal
Shapes == {"power", "pair", "then", "before", "mirror", "lines", "quoted", "paras", "stairs", "count"}
Uses(s) == CASE s = "power" -> 1 [] s \in {"pair", "then", "lines", "paras", "stairs", "count"} -> 2 [] OTHER -> 3
Tokens == 1..Job.tokens
None == 0
Family(s, a, b, c) == [s |-> s, a |-> a, b |-> b, c |-> c]

Stages == {"parse", "html", "safe", "rst", "json", "ast"}
Top(x) == IF x < Job.floor THEN Job.floor ELSE x
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Case == Job.runs[ix]
Start == [s \in Stages |-> Job.floor]
\* the size of document i compared to the one before, rounded up
Ratio(i) == IF i = 1 THEN 1 ELSE (Case[i].size + Case[i - 1].size - 1) \div Case[i - 1].size
InOrder(i) ==
  \A s \in Stages :
    /\ Case[i].end[s] = "ok"
    /\ Case[i].size < 1000 => Case[i].ms[s] < Job.short
    /\ i > 1 => Top(Case[i].ms[s]) <= cost[s] * Pow(Ratio(i), Job.degree)

Init == /\ k = 0 /\ cost = Start
        /\ IF Job.gen THEN ix = 0 /\ st = "pick" ELSE ix \in 1..Len(Job.runs) /\ st = "run"
Gen == /\ Job.gen /\ st = "pick"
       /\ \E s \in Shapes, a \in Tokens :
          \E b \in IF Uses(s) > 1 THEN Tokens ELSE {None} :
          \E c \in IF Uses(s) > 2 THEN {((a * 7 + b * 3) % Job.tokens) + 1, ((a * 5 + b) % Job.tokens) + 1} ELSE {None} :
             /\ PrintT(<<"FAMILY", ToJson(Family(s, a, b, c))>>)
             /\ st' = "done" /\ k' = 0 /\ UNCHANGED <<ix, cost>>
Step == /\ ~Job.gen /\ st = "run" /\ k < Len(Case)
        /\ IF InOrder(k + 1) THEN st' = "run" /\ cost' = [s \in Stages |-> Top(Case[k + 1].ms[s])]
           ELSE st' = "bad" /\ cost' = cost /\ PrintT(<<"MISMATCH", ix, k + 1>>)
        /\ k' = k + 1 /\ UNCHANGED ix
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars
\* a series goes on only while every stage has ended
Onward == st = "run" /\ k > 0 => \A i \in 1..k : \A s \in Stages : Case[i].end[s] = "ok"
=============================================================================
