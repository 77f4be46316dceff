-------------------------------- MODULE MC_Wide --------------------------------
(* One list of many parts - an array, a tuple struct, a tuple variant - loses, *)
(* gains or exchanges one part, or one separator.                             *)
EXTENDS TextFmt
VARIABLES ph, r, v, ed, text, got
vars == <<ph, r, v, ed, text, got>>
T == Roots[r].t
\* the list of parts of a value's document
Listy(t) == t.k \in {"arr", "tstruct", "enum"}
Lists == {i \in RootsOf(Fmt, {"wide"}) : Listy(Res(Roots[i].t))}
RECURSIVE Elems(_)
Elems(d) == IF d[1] = "arr" THEN d[2] ELSE IF d[1] = "par" THEN d[3] ELSE Elems(d[2][1][2])
RECURSIVE WithElems(_, _)
WithElems(d, ds) == IF d[1] = "arr" THEN <<"arr", ds>> ELSE IF d[1] = "par" THEN <<"par", d[2], ds>> ELSE <<"obj", << <<d[2][1][1], WithElems(d[2][1][2], ds)>> >>>>
IsTup(t, x) == t.k # "enum" \/ (t.vs[x[2] + 1].k = "tup" /\ Len(t.vs[x[2] + 1].fs) > 1)
Init == ph = "idle" /\ r = 0 /\ v = Unit /\ ed = <<"none", 0>> /\ text = <<>> /\ got = <<>>
Choose == ph = "idle" /\ r' \in Lists /\ ph' = "typed" /\ UNCHANGED <<v, ed, text, got>>
Write == /\ ph = "typed" /\ v' \in {x \in Range(Take(Samples(T, 8), Pick(3, 12))) : IsTup(T, x)} /\ ph' = "sent" /\ UNCHANGED <<r, ed, text, got>>
N == Len(Elems(FTree(T, v)))
Spots(n) == LET k == Pick(2, 8) IN {1, n} \cup (IF n > 255 THEN {256} ELSE {}) \cup Positions(n, k, r)
Kinds == {"less", "more", "extra", "swap", "null", "half", "double"}
Edit == /\ ph = "sent" /\ \E n \in {N} : \E k \in Kinds : \E p \in (IF k \in {"half", "double", "extra"} THEN {1} ELSE Spots(n)) : ed' = <<k, p>>
        /\ ph' = "hit" /\ UNCHANGED <<r, v, text, got>>
Other == << <<>>, <<58>>, <<59>>, <<44, 32, 44>>, <<46>> >>
\* separators: the k-th comma is something else
Unsep == /\ ph = "sent" /\ \E q \in {FLeaves(FTree(T, v), 0, 0, 0)} : \E cs \in {SelectSeq([k \in 1..Len(q) |-> IF q[k] = <<44>> THEN k ELSE 0] \o <<>>, LAMBDA k : k # 0)} :
              \E p \in Spots(Len(cs)) : \E k \in {1, 1 + ((p + r) % Len(Other))} : ed' = <<"sep", cs[p], k>>
         /\ ph' = "hit" /\ UNCHANGED <<r, v, text, got>>
Changed(ds) ==
  LET p == ed[2] n == Len(ds) IN
  CASE ed[1] = "less" -> Without(ds, p) [] ed[1] = "more" -> Twice(ds, p) [] ed[1] = "extra" -> Append(ds, ds[1]) [] ed[1] = "swap" -> Swapped(ds, p)
    [] ed[1] = "null" -> Before(ds, p, NoneDoc) [] ed[1] = "half" -> Take(ds, n \div 2) [] ed[1] = "double" -> ds \o ds [] OTHER -> ds
Post == /\ ph \in {"sent", "hit"} /\ text = <<>> /\ UNCHANGED <<ph, r, v, ed, got>>
        /\ IF ed[1] = "sep" THEN \E q \in {[FLeaves(FTree(T, v), 0, 0, 0) EXCEPT ![ed[2]] = Other[ed[3]]]} : text' = Glue(q, 2, 1)
           ELSE \E d \in {FTree(T, v)} : \E ds \in {Changed(Elems(d))} : \E e \in {WithElems(d, ds)} : text' = FRender(e, 1 + (ed[2] % 4), 0, 0, ed[2] % 2)
Read == /\ text # <<>> /\ got = <<>> /\ got' = FDecode(T, text) /\ UNCHANGED <<ph, r, v, ed, text>>
Next == Choose \/ Write \/ (text = <<>> /\ (Edit \/ Unsep)) \/ Post \/ Read
Spec == Init /\ [][Next]_vars
Seen == got # <<>>
Genuine == Seen /\ ph = "sent" => got = <<"ok", FNorm(T, v)>>
Counted == Seen /\ ph = "hit" /\ ed[1] # "swap" => got[1] \in {"err", "any"}
Ordered == Seen /\ ph = "hit" /\ ed[1] = "swap" /\ got[1] = "ok" => LET x == Elems(FTree(T, v)) IN Changed(x) = x \/ got[2] # FNorm(T, v)
Observe == Seen => Emit(<<[o |-> "dec", t |-> r, s |-> text, x |-> got, l |-> 2]>>)
=============================================================================
