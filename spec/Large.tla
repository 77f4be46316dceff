-------------------------------- MODULE Large --------------------------------
(* Values one part of which is a long string or a collection of n elements,   *)
(* for n far beyond what is written out: every element is an instance of one  *)
(* pattern, -1 standing for the digits of the element's number.  The harness  *)
(* repeats <<"cnt", n, pattern>> itself; the specification writes it out for  *)
(* small n.                                                                   *)
EXTENDS Emit
CONSTANT First(_)      \* a value of a type, as a round trip leaves it
Numbers(i) == DecNat(100000 + i)
SubD(ds, i) == Flat(MapSeq(ds, LAMBDA c : IF c = -1 THEN Numbers(i) ELSE <<c>>))
RECURSIVE Sub(_, _)
Sub(v, i) ==
  CASE v[1] \in {"int", "str"} -> <<v[1], SubD(v[2], i)>>
    [] v[1] = "tup" -> <<"tup", MapSeq(v[2], LAMBDA x : Sub(x, i))>>
    [] OTHER -> v
\* the types whose values can carry a number, and a pattern for any type
RECURSIVE Carries(_)
Carries(t) == \/ t.k = "int" /\ t.b >= 4
              \/ t.k = "str"
              \/ t.k = "tup" /\ \E i \in 1..Len(t.ts) : Carries(t.ts[i])
RECURSIVE Pattern(_)
Pattern(t) ==
  CASE t.k = "int" /\ t.b >= 4 -> <<"int", <<-1>>>>
    [] t.k = "str" -> <<"str", <<107, 34, -1, 233>>>>
    [] t.k = "tup" -> <<"tup", MapSeq(t.ts, Pattern)>>
    [] OTHER -> First(t)
\* where the long part may be: <<the rest of the value, the way to it, its type>>
RECURSIVE Holes(_)
At_(hs, k, Into(_)) == MapSeq(hs, LAMBDA h : <<Into(h[1]), <<k>> \o h[2], h[3]>>)
HolesIn(ts, Into(_)) ==
  LET base == MapSeq(ts, First) IN
  Flat([k \in 1..Len(ts) |-> At_(Holes(ts[k]), k, LAMBDA x : Into([base EXCEPT ![k] = x]))] \o <<>>)
Live(fs) == \A i \in 1..Len(fs) : fs[i].px = ""
Holes(tt) ==
  IF tt.k = "ref" THEN <<>> ELSE
  LET t == Res(tt) IN
  CASE t.k \in {"seq", "str"} -> << <<IF t.k = "str" THEN <<"str", <<>>>> ELSE <<"seq", <<>>>>, <<>>, t>> >>
    [] t.k = "set" -> IF Carries(t.t) THEN << <<<<"seq", <<>>>>, <<>>, t>> >> ELSE <<>>
    [] t.k = "map" -> IF Carries(t.kt) THEN << <<<<"map", <<>>>>, <<>>, t>> >> ELSE <<>>
    [] t.k = "opt" -> At_(Holes(t.t), 0, LAMBDA x : Some(x))
    [] t.k = "tup" -> HolesIn(t.ts, LAMBDA vs : <<"tup", vs>>)
    [] t.k = "tstruct" -> IF \A i \in 1..Len(t.px) : t.px[i] = "" THEN HolesIn(t.ts, LAMBDA vs : <<"tup", vs>>) ELSE <<>>
    [] t.k = "struct" -> IF ~Live(t.fs) THEN <<>> ELSE
         SelectSeq(HolesIn(MapSeq(t.fs, LAMBDA f : f.t), LAMBDA vs : <<"rec", vs>>), LAMBDA h : ~t.fs[h[2][1]].s)
    [] t.k = "enum" -> Flat([w \in 1..Min2(Len(t.vs), 8) |->
         IF t.vs[w].k = "unit" THEN <<>>
         ELSE IF t.vs[w].k = "tup" THEN HolesIn(t.vs[w].fs, LAMBDA vs : <<"var", w - 1, vs>>)
         ELSE IF ~Live(t.vs[w].fs) THEN <<>>
         ELSE SelectSeq(HolesIn(MapSeq(t.vs[w].fs, LAMBDA f : f.t), LAMBDA vs : <<"var", w - 1, vs>>), LAMBDA h : ~t.vs[w].fs[h[2][1]].s)] \o <<>>)
    [] OTHER -> <<>>
RECURSIVE Fill(_, _, _)
Fill(v, p, x) ==
  IF p = <<>> THEN x
  ELSE CASE v[1] = "some" -> Some(Fill(v[2], Tail(p), x))
         [] v[1] \in {"rec", "tup"} -> <<v[1], [v[2] EXCEPT ![p[1]] = Fill(@, Tail(p), x)]>>
         [] v[1] = "var" -> <<"var", v[2], [v[3] EXCEPT ![p[1]] = Fill(@, Tail(p), x)]>>
\* the contents: written out, or for the harness
Chars == <<97, 34, 233, 92, 10, -1, 128512>>
Times(n, Op(_)) == [i \in 1..n |-> Op(i - 1)] \o <<>>
Cnt(n, p) == << <<"cnt", n, p>> >>
Out_(t, n) ==
  CASE t.k = "str" -> <<"str", Flat(Times(n, LAMBDA i : SubD(Chars, i)))>>
    [] t.k \in {"seq", "set"} -> LET p == Pattern(t.t) IN <<"seq", Times(n, LAMBDA i : Sub(p, i))>>
    [] t.k = "map" -> LET p == Pattern(t.kt) q == Pattern(t.vt) IN <<"map", Times(n, LAMBDA i : <<Sub(p, i), Sub(q, i)>>)>>
Long_(t, n) ==
  CASE t.k = "str" -> <<"str", Cnt(n, Chars)>>
    [] t.k \in {"seq", "set"} -> <<"seq", Cnt(n, <<Pattern(t.t)>>)>>
    [] t.k = "map" -> <<"map", Cnt(n, << <<Pattern(t.kt), Pattern(t.vt)>> >>)>>
Sizes == IF Thorough THEN {255, 256, 257, 300, 1000, 1025, 4097, 65535, 65536, 65537, 200000} ELSE {256, 1025, 65537}
=============================================================================
