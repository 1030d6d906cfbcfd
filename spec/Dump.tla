-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* The dumps of a tree.  A row has the depth d and kind t of its node and  *)
(* what the node object holds: lit, title, info, dest, sc (string content) *)
(* as [n, s], n telling that there is none; ld, the list data, as a        *)
(* sequence of [k, tag, s, z], z telling that the value counts as empty;   *)
(* pos as written by str; open and llb.                                    *)
(* Case: rows; json, what the JSON dump says when parsed: for each object  *)
(* in document order its depth, whether it has children, and its members   *)
(* by name; ast, the text of the AST dump; same, whether the tree is the   *)
(* same after both.                                                        *)
(***************************************************************************)
EXTENDS Walk

VARIABLES ix, w, out, st
vars == <<ix, w, out, st>>
Case == Job.cases[ix]
Rows == Case.rows
IsAst == Case.kind = "ast"

Opt(k, f) == IF f.s = <<>> THEN <<>> ELSE << <<k, f.s>> >>
Members(r) == Opt("destination", r.dest) \o Opt("info", r.info) \o Opt("literal", r.lit)
              \o Opt("string_content", r.sc) \o Opt("title", r.title)
JsonRow(r) == [d |-> r.d, t |-> r.t, con |-> r.t \in ContainerKinds, f |-> Members(r), ld |-> [i \in 1..Len(r.ld) |-> [k |-> r.ld[i].k, tag |-> r.ld[i].tag, s |-> r.ld[i].s]]]
\* a node is written when it is entered
JsonEnter == JsonRow(Rows[w.i])

----------------------------------------------------------- (* the AST dump *)
D_Title == S("Title: ")
D_Info == S("Info: ")
D_Destination == S("Destination: ")
D_OpenTrue == S("Open: True")
D_LastlineblankTrue == S("Last line blank: True")
D_Sourcepos == S("Sourcepos: ")
D_Stringcontent == S("String content: ")
D_Literal == S("Literal: ")
D_ListData == S("List Data: ")
D_type == S("[type] = ")
D_bulletchar == S("[bullet_char] = ")
D_start == S("[start] = ")
D_delimiter == S("[delimiter] = ")
D_padding == S("[padding] = ")
D_markeroffset == S("[marker_offset] = ")
D_Children == S("Children:")
D_arrow == S("-> ")
L(pre, s) == pre \o s \o <<LF>>
T1 == <<TAB>>
Str(f) == f.s
If(c, s) == IF c THEN s ELSE <<>>
\* printed unless it is the empty text: also when there is none
Field(ind, name, f) == If(f.n \/ f.s # <<>>, L(T1 \o ind, name \o f.s))
LdLine(ind, r, k, name) ==
  LET q == SelectSeq(r.ld, LAMBDA e : e.k = k) IN
  If(IF q = <<>> THEN FALSE ELSE ~q[1].z, IF q = <<>> THEN <<>> ELSE L(T1 \o T1 \o ind, name \o q[1].s))
HasType(r) == LET q == SelectSeq(r.ld, LAMBDA e : e.k = "type") IN IF q = <<>> THEN FALSE ELSE ~q[1].z
AstNode(r, ind) ==
  L(ind, <<91>> \o r.tc \o <<93>>)
  \o Field(ind, D_Title, r.title) \o Field(ind, D_Info, r.info) \o Field(ind, D_Destination, r.dest)
  \o If(r.open, L(T1 \o ind, D_OpenTrue)) \o If(r.llb, L(T1 \o ind, D_LastlineblankTrue))
  \o If(~r.pos.n, L(T1 \o ind, D_Sourcepos \o r.pos.s))
  \o Field(ind, D_Stringcontent, r.sc) \o Field(ind, D_Info, r.info) \o Field(ind, D_Literal, r.lit)
  \o If(HasType(r), L(T1 \o ind, D_ListData)
        \o LdLine(ind, r, "type", D_type)
        \o LdLine(ind, r, "bullet_char", D_bulletchar) \o LdLine(ind, r, "start", D_start)
        \o LdLine(ind, r, "delimiter", D_delimiter) \o LdLine(ind, r, "padding", D_padding)
        \o LdLine(ind, r, "marker_offset", D_markeroffset))
  \o L(T1 \o ind, D_Children)
Arrow == <<TAB, TAB>> \o D_arrow

Init == /\ ix \in 1..Len(Job.cases) /\ w = WalkInit /\ st = "run"
        /\ out = IF IsAst THEN AstNode(Rows[1], <<>>) ELSE <<>>
Event == /\ st = "run" /\ ~WalkDone(Rows, w)
         /\ out' = IF IsAst THEN out \o AstNode(Rows[EvRow(Rows, w)], Arrow)
                   ELSE IF Leaves(Rows, w) THEN out ELSE Append(out, JsonEnter)
         /\ w' = WalkStep(Rows, w) /\ UNCHANGED <<ix, st>>
Compare == /\ st = "run" /\ WalkDone(Rows, w)
           /\ IF (IF IsAst THEN out = Case.ast ELSE out = Case.json) /\ Case.same THEN st' = "ok"
              ELSE /\ st' = "bad" /\ PrintT(<<"MISMATCH", ix>>)
                   /\ IF Job.explain THEN PrintT(<<"EXPECTED", ix, ToJson(out)>>) ELSE TRUE
           /\ UNCHANGED <<ix, w, out>>
Next == Event \/ Compare
Spec == Init /\ [][Next]_vars
\* the objects written so far are the nodes entered so far
EachOnce == ~IsAst => Len(out) = w.i - 1
=============================================================================
