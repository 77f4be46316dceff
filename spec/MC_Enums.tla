------------------------------- MODULE MC_Enums -------------------------------
(* A forger writes enum documents from parts: a name of this or no variant, a *)
(* shape (alone, with a list, with members, doubled, without a name, as a     *)
(* number ..) and the payload of any variant.                                 *)
EXTENDS TextFmt
VARIABLES ph, r, src, nm, shape, alt, seen
vars == <<ph, r, src, nm, shape, alt, seen>>
E(i) == Res(Roots[i].t)
EnumRoots == {i \in FRoots : E(i).k = "enum"}
Vs == E(r).vs
VName(w) == HeadName(w)
\* a few variants of a large enum, all of a small one
Some_(i) == LET n == Len(E(i).vs) IN IF n <= 24 THEN 1..n ELSE {1, 2, 129, 256, 257, n - 3, n - 2, n - 1, n}
Init == ph = "idle" /\ r = 0 /\ src = Unit /\ nm = <<>> /\ shape = "own" /\ alt = 0 /\ seen = <<>>
Choose == /\ ph = "idle" /\ r' \in EnumRoots /\ ph' = "typed" /\ UNCHANGED <<src, nm, shape, alt>>
Genuine(n) == {x \in Range(Samples(E(r), n)) : x[2] + 1 \in Some_(r)} \cup
              {<<"var", k - 1, <<>>>> : k \in {j \in Some_(r) : Vs[j].k = "unit"}}
\* one value of each variant
FirstOfEach == LET S == Samples(E(r), 8) IN {S[i] : i \in {j \in 1..Len(S) : \A k \in 1..(j - 1) : S[k][2] # S[j][2]}}
Write == /\ ph = "typed" /\ src' \in (IF Sparse /\ ~Thorough /\ Len(Vs) < 20 THEN FirstOfEach ELSE Genuine(IF Len(Vs) > 20 THEN 7 ELSE Pick(10, 24))) /\ nm' = VName(Vs[src'[2] + 1]) /\ shape' = "own" /\ ph' = "sent" /\ UNCHANGED <<r, alt>>
\* names: every variant's names in declaration and in this format, close ones, nobody's
Lower(s) == MapSeq(s, LAMBDA c : IF c \in 65..90 THEN c + 32 ELSE IF c \in 97..122 THEN c - 32 ELSE c)
Near(s) == {s, s \o s, s \o <<32>>, <<32>> \o s, Take(s, Len(s) - 1), Lower(s), s \o <<48>>, Drop(s, 1)}
OkName(s) == IsJson \/ (s # <<>> /\ IsAlpha(s[1]) /\ SkipIdent(s, 1) > Len(s) /\ s \notin {C("true"), C("false")})
Names == {s \in UNION ({Near(Vs[k].j) : k \in Some_(r)} \cup {{Vs[k].n} : k \in Some_(r)} \cup {{<<>>, C("None"), C("0"), C("Zz")}}) : OkName(s)}
Rename == /\ ph = "sent" /\ nm' \in (Names \ {nm}) /\ shape' = "own" /\ ph' = "forged" /\ UNCHANGED <<r, src, alt>>
Shapes == {"alone", "list", "members", "none", "twice", "string", "nameless", "number", "nested", "empty", "pair"}
Reshape == /\ ph = "sent" /\ shape' \in Shapes /\ alt' \in {1 + (Rnd(r, src[2], k) % Len(Vs)) : k \in 1..Pick(2, 6)} /\ ph' = "forged" /\ UNCHANGED <<r, src, nm>>
\* the payload of another variant
Graft == /\ ph = "sent" /\ shape' = "graft" /\ alt' \in (Some_(r) \ {src[2] + 1}) /\ nm' = VName(Vs[alt']) /\ ph' = "forged" /\ UNCHANGED <<r, src>>
Author == seen = <<>> /\ (Choose \/ Write \/ Rename \/ Reshape \/ Graft) /\ UNCHANGED seen

Own == FTree(E(r), src)
Body == IF IsJson THEN (IF Own[1] = "obj" THEN Own[2][1][2] ELSE <<"arr", <<>>>>) ELSE IF Own[1] = "lit" THEN <<"par", <<>>, <<>>>> ELSE <<Own[1], <<>>, Own[3]>>
Tagged(n, b) == IF IsJson THEN <<"obj", << <<KeyD(n), b>> >>>> ELSE IF b[1] = "lit" THEN IdD(n) ELSE <<b[1], n, b[3]>>
Bare(n) == IF IsJson THEN KeyD(n) ELSE IdD(n)
Num(s) == <<"num", C(s)>>
List(ds) == IF IsJson THEN <<"arr", ds>> ELSE <<"par", <<>>, ds>>
Docs == IF Body[1] = "arr" THEN Body[2] ELSE IF Body[1] = "par" THEN Body[3] ELSE IF Body[1] = "obj" THEN MapSeq(Body[2], LAMBDA m : m[2]) ELSE MapSeq(Body[3], LAMBDA m : m[2])
IsUnit == Vs[src[2] + 1].k = "unit"
Doc ==
  CASE shape \in {"own", "graft"} -> IF IsUnit THEN Bare(nm) ELSE Tagged(nm, Body)
    [] shape = "alone" -> Bare(nm)
    [] shape = "list" -> Tagged(nm, List(Docs))
    [] shape = "members" -> IF IsJson THEN Tagged(nm, <<"obj", [i \in 1..Len(Docs) |-> <<KeyD(C("k")), Docs[i]>>] \o <<>>>>) ELSE <<"named", nm, [i \in 1..Len(Docs) |-> <<IdD(C("k")), Docs[i]>>] \o <<>>>>
    [] shape = "none" -> Tagged(nm, List(<<>>))
    [] shape = "twice" -> IF IsJson THEN <<"obj", << <<KeyD(nm), Body>>, <<KeyD(VName(Vs[alt])), Body>> >>>> ELSE Tagged(nm, List(Docs \o Docs))
    [] shape = "string" -> IF IsJson THEN <<"arr", << KeyD(nm), Body >>>> ELSE KeyD(nm)
    [] shape = "nameless" -> Body
    [] shape = "number" -> Num(ToString(src[2]))
    [] shape = "nested" -> IF IsJson THEN Tagged(nm, Own) ELSE Tagged(nm, List(<<Own>>))
    [] shape = "empty" -> IF IsJson THEN <<"obj", <<>>>> ELSE List(<<>>)
    [] shape = "pair" -> IF IsJson THEN Tagged(nm, NoneDoc) ELSE NoneDoc
Written == ph \in {"sent", "forged"}
Text_ == FRender(Doc, 1 + (alt % 4), 0, 0, 0)
\* the same document as the only and as the first element of a list: what follows the variant shows
InVec == VecOf[r]
Listed(s, k) == <<91>> \o s \o (IF k = 1 THEN <<>> ELSE <<44>> \o s) \o <<93>>
\* a reader: <<text, what it reads, what it reads of the lists>>
Reader == /\ Written /\ seen = <<>>
          /\ seen' = LET s == Text_ t == E(r) v == Roots[InVec].t IN <<s, FDecode(t, s), IF InVec = 0 THEN <<>> ELSE [k \in 1..2 |-> FDecode(v, Listed(s, k))] \o <<>>>>
          /\ UNCHANGED <<ph, r, src, nm, shape, alt>>
Next == Author \/ Reader
Spec == Init /\ [][Next]_vars
Out == seen[2]
Sent == ph = "sent" /\ seen # <<>>
Forged == ph = "forged" /\ seen # <<>>
\* the variant a name belongs to in a shape: alone (0) or with a payload (1); RON tells them apart by the name only
Answers(n, withBody) == LET V == Vs IN {k \in 1..Len(V) : IF IsJson THEN V[k].j = n /\ ((V[k].k # "unit") <=> withBody) ELSE V[k].n = n}
Read(d) == d[1] \in {"ok", "okerr"}
\* every variant has an encoding of its own and comes back from it with its fields in place
Identity == Sent => Out = <<"ok", FNorm(E(r), src)>>
Unambiguous == ph = "typed" => \A a, b \in Some_(r) : a # b => <<VName(Vs[a]), IsJson /\ Vs[a].k = "unit">> # <<VName(Vs[b]), IsJson /\ Vs[b].k = "unit">>
\* what is read is the variant the name belongs to; what belongs to none is an error that names it
ByName == Forged /\ shape \in {"own", "graft", "alone", "list", "members", "none"} =>
  LET d == Out
      a == Answers(nm, IF shape = "alone" \/ (shape \in {"own", "graft"} /\ IsUnit) THEN FALSE ELSE TRUE) IN
  IF a = {} THEN d[1] = "err" /\ d[2] \in {"enum", "token"} /\ (d[2] = "enum" => d[4] = nm) ELSE Read(d) => d[2][2] + 1 \in a
\* shapes that belong to no variant whatever the name
NoSuchShape == Forged /\ (shape \in {"string", "number"} \/ (shape = "twice" /\ IsJson) \/ (shape = "empty" /\ IsJson) \/ (shape = "nameless" /\ ~IsJson)) => Out[1] = "err" \/ (IsJson /\ shape = "nameless")
\* a payload is only read by a variant of its kind and arity
Arity == Forged /\ shape \in {"list", "none"} => LET d == Out IN Read(d) => LET w == Vs[d[2][2] + 1] IN
   w.k = "unit" \/ (w.k = "tup" /\ Len(w.fs) = (IF shape = "none" THEN 0 ELSE Len(Docs))) \/ (~IsJson /\ w.k = "rec" /\ (shape = "none" \/ Docs = <<>>))
InList == Sent /\ InVec # 0 => seen[3][2] = <<"ok", <<"seq", <<FNorm(E(r), src), FNorm(E(r), src)>>>>>>
Observe == seen # <<>> => Emit(<<[o |-> "dec", t |-> r, s |-> seen[1], x |-> Out, l |-> 2]>>
   \o [k \in 1..Len(seen[3]) |-> [o |-> "dec", t |-> InVec, s |-> Listed(seen[1], k), x |-> seen[3][k], l |-> 2]]
   \o (IF Sent THEN <<[o |-> "rt", t |-> r, v |-> src, x |-> Out[2]]>> ELSE <<>>))
=============================================================================
