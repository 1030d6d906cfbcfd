-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* The job a run works on, and the tables of Unicode and HTML5 data it     *)
(* brings along (restricted to what its texts contain):                    *)
(*   punct  characters of general category P* outside ASCII                *)
(*   fold   <<character, its full case folding>> where that differs        *)
(*   ents   <<entity name, its characters>>                                *)
(* They come from the Unicode database and the HTML5 table, not from the   *)
(* code under test.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
UniPunct == {Job.punct[k] : k \in 1..Len(Job.punct)}
FoldTab == [c \in {Job.fold[k][1] : k \in 1..Len(Job.fold)} |->
              LET k == CHOOSE j \in 1..Len(Job.fold) : Job.fold[j][1] = c IN Job.fold[k][2]]
FoldDom == DOMAIN FoldTab
EntTab == [n \in {Job.ents[k][1] : k \in 1..Len(Job.ents)} |->
              LET k == CHOOSE j \in 1..Len(Job.ents) : Job.ents[j][1] = n IN Job.ents[k][2]]
EntDom == DOMAIN EntTab
=============================================================================
