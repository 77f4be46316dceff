------------------------------- MODULE MC_Arity -------------------------------
(* A forger changes the number or the order of the elements of one array,     *)
(* tuple, tuple struct or tuple variant somewhere inside a document.          *)
EXTENDS TextFmt
VARIABLES ph, r, orig, doc, delta
vars == <<ph, r, orig, doc, delta>>
T == Roots[r].t
\* an edit: <<change of the number of elements, edited document>>; at most a few positions of a long list
Spots(n) == IF n <= 6 THEN 1..n ELSE {1, 2, n - 1, n}
Num1 == <<"num", C("1")>>
\* all edits of one element list of a fixed length
ListEdits(ds) == LET n == Len(ds) IN
       {<<-1, Without(ds, i)>> : i \in Spots(n)} \cup {<<1, Twice(ds, i)>> : i \in Spots(n)} \cup {<<1, Before(ds, i, NoneDoc)>> : i \in Spots(n + 1)}
  \cup {<<1, Append(ds, Num1)>>} \cup (IF n > 0 THEN {<<-n, <<>>>>, <<n, ds \o ds>>} ELSE {}) \cup {<<0, Swapped(ds, i)>> : i \in Spots(n - 1)}
  \cup (IF n > 1 THEN {<<1 - n, <<ds[1]>>>>, <<1 - n, << <<"arr", ds>>>>>>} ELSE {})
Empty1(d) == IF d[1] = "obj" THEN {<<1, <<"obj", << <<NameD(C("k")), Num1>> >>>>>>} ELSE {}
\* the elements of a list document and the document with other elements
Elems(d) == IF d[1] = "arr" THEN d[2] ELSE d[3]
WithElems(d, ds) == IF d[1] = "arr" THEN <<"arr", ds>> ELSE <<"par", d[2], ds>>
Local(d) == {<<e[1], WithElems(d, e[2])>> : e \in ListEdits(Elems(d))}
RECURSIVE Edits(_, _)
\* edits inside the i-th of some elements
Deep(d, ts, xs) == UNION {{<<e[1], WithElems(d, [Elems(d) EXCEPT ![i] = e[2]])>> : e \in Edits(ts[i], xs[i])} : i \in Spots(Len(xs))}
\* edits inside the members of a derived object
InFields(fs, vs, ms) == UNION {LET f == fs[k] J == {j \in 1..Len(ms) : ms[j][1] = NameD(f.j)} IN
   IF f.s \/ f.px # "" \/ J = {} \/ (f.o /\ vs[k] = None) THEN {}
   ELSE LET j == CHOOSE j \in J : TRUE IN {<<e[1], [ms EXCEPT ![j] = <<ms[j][1], e[2]>>]>> : e \in Edits(f.t, vs[k])} : k \in 1..Len(fs)}
Edits(tt, x) ==
  LET t == Res(tt)
      d == FTree(t, x) IN
  CASE t.k = "opt" -> IF x = None THEN {} ELSE Edits(t.t, x[2])
    [] t.k \in {"seq", "set"} -> Deep(d, [i \in 1..Len(x[2]) |-> t.t] \o <<>>, x[2])
    [] t.k = "map" -> UNION {{<<e[1], <<"obj", [d[2] EXCEPT ![i] = <<@[1], e[2]>>]>>>> : e \in Edits(t.vt, x[2][i][2])} : i \in Spots(Len(x[2]))}
    [] t.k = "arr" -> Local(d) \cup Deep(d, [i \in 1..t.n |-> t.t] \o <<>>, x[2])
    [] t.k = "tup" -> Local(d) \cup Deep(d, t.ts, x[2])
    [] t.k = "unit" -> IF IsJson THEN {} ELSE Local(d)
    [] t.k = "tstruct" -> IF IsJson /\ t.tr THEN Edits(t.ts[1], x[2][1]) ELSE IF d[1] = "obj" THEN Empty1(d) ELSE Local(d) \cup Deep(d, t.ts, x[2])
    [] t.k = "struct" -> IF IsJson THEN {<<e[1], <<"obj", e[2]>>>> : e \in InFields(t.fs, x[2], d[2])} ELSE {<<e[1], <<"named", d[2], e[2]>>>> : e \in InFields(t.fs, x[2], d[3])}
    [] t.k = "enum" -> LET w == t.vs[x[2] + 1] IN
         IF w.k = "unit" THEN {}
         ELSE LET b == IF IsJson THEN d[2][1][2] ELSE d
                  put(b2) == IF IsJson THEN <<"obj", << <<d[2][1][1], b2>> >>>> ELSE b2
                  inner == IF w.k = "tup" THEN Local(b) \cup Deep(b, w.fs, x[3])
                           ELSE {<<e[1], IF IsJson THEN <<"obj", e[2]>> ELSE <<"named", b[2], e[2]>>>> : e \in InFields(w.fs, x[3], IF IsJson THEN b[2] ELSE b[3])}
              IN {<<e[1], put(e[2])>> : e \in inner}
    [] OTHER -> {}
Init == ph = "idle" /\ r = 0 /\ orig = Unit /\ doc = <<>> /\ delta = 0
Choose == ph = "idle" /\ r' \in FRoots /\ ph' = "typed" /\ UNCHANGED <<orig, doc, delta>>
Write == /\ ph = "typed" /\ \E x \in Range(Samples(T, Pick(10, 24))) : orig' = x /\ doc' = FTree(T, x) /\ Edits(T, x) # {}
         /\ ph' = "sent" /\ UNCHANGED <<r, delta>>
Edit == /\ ph = "sent" /\ \E e \in Edits(T, orig) : delta' = e[1] /\ doc' = e[2]
        /\ ph' = "hit" /\ UNCHANGED <<r, orig>>
\* the separators between elements belong to the list as well: one is left out, or is another token
Leaves0 == FLeaves(FTree(T, orig), 0, 0, 0)
Commas == LET q == Leaves0 IN {k \in 1..Len(q) : q[k] = <<44>>}
Other == << <<>>, <<58>>, <<59>>, <<44, 32, 44>>, <<47, 42, 44, 42, 47>>, <<46>> >>
\* doc: <<comma, what stands there instead>>
Unsep == /\ ph = "sent" /\ \E c \in Commas : \E k \in (IF Sparse THEN {1, 2 + (Rnd(r, c, 9) % 5)} ELSE 1..Len(Other)) : doc' = <<c, k>>
         /\ ph' = "unsep" /\ UNCHANGED <<r, orig, delta>>
Next == Choose \/ Write \/ Edit \/ Unsep
Spec == Init /\ [][Next]_vars
Text_ == IF ph = "unsep" THEN Glue([Leaves0 EXCEPT ![doc[1]] = Other[doc[2]]], 2, 1) ELSE FRender(doc, 1 + (Rnd(r, delta + 50, 3) % 4), 0, 0, IF delta = 0 THEN 1 ELSE 0)
Out == FDecode(T, Text_)
Genuine == ph = "sent" => Out[1] \in {"ok", "okerr"} /\ Out[2] = FNorm(T, orig)
\* another number of elements is an error, whatever the elements are
Counted == ph = "hit" /\ delta # 0 => Out[1] \in {"err", "any"}
\* the same elements in another order are another value or an error, unless nothing was exchanged
Ordered == ph = "hit" /\ delta = 0 => Out[1] \in {"err", "any"} \/ doc = FTree(T, orig) \/ Out[2] # FNorm(T, orig) \/ doc = FTree(T, Out[2]) 
\* elements stand one comma apart, whatever they are
Separated == ph = "unsep" => Out[1] \in {"err", "any"}
Observe == ph \in {"sent", "hit", "unsep"} => Emit(<<[o |-> "dec", t |-> r, s |-> Text_, x |-> Out, l |-> 2]>>)
=============================================================================
