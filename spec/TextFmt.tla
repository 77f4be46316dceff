------------------------------- MODULE TextFmt -------------------------------
(* The text format a run is about: "j" JSON, "r" RON.                         *)
EXTENDS RonText, Emit
Fmt == IOEnv.VERIF_FMT
IsJson == Fmt = "j"
FTokens(s) == IF IsJson THEN Tokens(s) ELSE RTokens(s)
FDecode(ty, s) == IF IsJson THEN Decode(ty, s) ELSE RDecode(ty, s)
FTree(ty, x) == IF IsJson THEN Tree(ty, x) ELSE RTree(ty, x)
\* e: escape style, o: member order, tc: trailing commas (RON only)
FLeaves(d, e, o, tc) == IF IsJson THEN Leaves(d, e, o) ELSE RLeaves(d, e, o, tc)
FRender(d, g, e, o, tc) == Glue(FLeaves(d, e, o, tc), g, 1)
FText(ty, x) == IF IsJson THEN Text(ty, x) ELSE RText(ty, x)
FNorm(ty, x) == Norm(Fmt, ty, x)
NoneDoc == IF IsJson THEN Lit("null") ELSE Lit("None")
NameD(cps) == IF IsJson THEN KeyD(cps) ELSE IdD(cps)
\* an object of named members, under a variant name or alone
Members(head, ms) == IF ~IsJson THEN <<"named", head, ms>> ELSE IF head = <<>> THEN <<"obj", ms>> ELSE <<"obj", << <<KeyD(head), <<"obj", ms>>>> >>>>
HeadName(w) == IF IsJson THEN w.j ELSE w.n
\* the text roots of the run
FRoots == RootsOf(Fmt, Tags)
=============================================================================
