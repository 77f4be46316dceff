------------------------------- MODULE MC_CollB -------------------------------
(* As MC_Coll for the binary format: a count, then elements in any order and  *)
(* more than once; and the bytes a collection is written as.                  *)
EXTENDS Bin, Emit
VARIABLES ph, r, els
vars == <<ph, r, els>>
T == Res(Roots[r].t)
CollRoots == {i \in RootsOf("b", {"coll", "zst", "time", "opt", "enum"}) : Res(Roots[i].t).k \in {"seq", "set", "map"}}
Pool(t) == IF t.k = "map" THEN LET K == Take(BinSamples(t.kt, 8), 3) V == Take(BinSamples(t.vt, 4), 2) IN
                 Flat([i \in 1..Len(K) |-> [j \in 1..Len(V) |-> <<K[i], V[j]>>] \o <<>>] \o <<>>)
           ELSE Take(BinSamples(t.t, 8), 4)
Init == ph = "idle" /\ r = 0 /\ els = <<>>
Open == ph = "idle" /\ r' \in CollRoots /\ ph' = "open" /\ UNCHANGED els
Chance(k) == Len(els) < 3 \/ Rnd(r, Len(els) + k * 5, FoldLeft(LAMBDA a, i : (a * 7 + i) % 30011, 0, els)) % Pick(17, 5) = 0
Add == /\ ph = "open" /\ Len(els) < Pick(5, 6) /\ \E k \in 1..Len(Pool(T)) : Chance(k) /\ els' = Append(els, k)
       /\ UNCHANGED <<ph, r>>
Next == Open \/ Add
Spec == Init /\ [][Next]_vars
Els == LET P == Pool(T) IN MapSeq(els, LAMBDA k : P[k])
ElBytes(x) == IF T.k = "map" THEN SerBin(T.kt, x[1]) \o SerBin(T.vt, x[2]) ELSE SerBin(T.t, x)
Raw == LE8(Len(els)) \o Flat(MapSeq(Els, ElBytes))
Rule == LET E == Els IN
  CASE T.k = "seq" -> <<"seq", [i \in 1..Len(E) |-> Norm("b", T.t, E[i])] \o <<>>>>
    [] T.k = "set" -> <<"seq", SetToSortSeq({Norm("b", T.t, E[i]) : i \in 1..Len(E)}, LAMBDA a, b : CmpVal(a, b) < 0)>>
    [] T.k = "map" -> LET N(i) == Norm("b", T.kt, E[i][1])
                          last == {i \in 1..Len(E) : \A j \in (i + 1)..Len(E) : N(j) # N(i)} IN
                      <<"map", MapSeq(SetToSortSeq(last, LAMBDA a, b : CmpVal(N(a), N(b)) < 0), LAMBDA i : <<N(i), Norm("b", T.vt, E[i][2])>>)>>
Written == ph = "open"
Out == DeBin(T, Raw, 0)
Kept == Written => Out = <<"ok", Rule, Len(Raw), FALSE>>
\* as many elements are written as there are, in their order or the order of their keys
Counted == Written => LET b == SerBin(T, Rule) IN Take(b, 8) = LE8(Len(Rule[2])) /\ b = LE8(Len(Rule[2])) \o Flat(MapSeq(Rule[2], ElBytes))
\* one element fewer than announced is an error, one more is left alone
Count == Written /\ MinW(IF T.k = "map" THEN T.kt ELSE T.t) > 0 => DeBin(T, LE8(Len(els) + 1) \o Drop(Raw, 8), 0)[1] = "err"
Observe == Written => Emit(<<[o |-> "dec", t |-> r, b |-> Raw, x |-> <<"ok", Rule, Len(Raw)>>],
     [o |-> "rt", t |-> r, v |-> Rule, x |-> Norm("b", T, Rule), pre |-> <<>>, post |-> <<3>>]>>
  \o (IF Hashy(T, Rule) THEN <<>> ELSE <<[o |-> "enc", t |-> r, v |-> Rule, b |-> SerBin(T, Rule)]>>))
=============================================================================
