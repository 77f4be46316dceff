-------------------------------- MODULE MC_Coll --------------------------------
(* An author adds elements to one collection, in any order and more than      *)
(* once; a reader has to keep order, keep elements once, keep last entries.   *)
EXTENDS TextFmt
VARIABLES ph, r, els
vars == <<ph, r, els>>
T == Res(Roots[r].t)
CollRoots == {i \in RootsOf(Fmt, {"coll", "zst", "time", "opt", "enum"}) : Res(Roots[i].t).k \in {"seq", "set", "map"}}
\* elements to choose from: the same few again and again
Pool(t) == IF t.k = "map" THEN LET K == Take(Samples(t.kt, 8), 3) V == Take(Samples(t.vt, 4), 2) IN
                 Flat([i \in 1..Len(K) |-> [j \in 1..Len(V) |-> <<K[i], V[j]>>] \o <<>>] \o <<>>)
           ELSE Take(Samples(t.t, 8), 4)
Init == ph = "idle" /\ r = 0 /\ els = <<>>
Open == ph = "idle" /\ r' \in CollRoots /\ ph' = "open" /\ UNCHANGED els
Chance(k) == Len(els) < 3 \/ Rnd(r, Len(els) + k * 5, FoldLeft(LAMBDA a, i : (a * 7 + i) % 30011, 0, els)) % Pick(17, 5) = 0
Add == /\ ph = "open" /\ Len(els) < Pick(5, 6) /\ \E k \in 1..Len(Pool(T)) : Chance(k) /\ els' = Append(els, k)
       /\ UNCHANGED <<ph, r>>
Next == Open \/ Add
Spec == Init /\ [][Next]_vars

Els == LET P == Pool(T) IN MapSeq(els, LAMBDA k : P[k])
\* every other string key spelled with escapes: the key is the string, not its spelling
KeyDoc(i, k) == LET d == FTree(T.kt, k) IN IF d[1] = "str" /\ i % 2 = 0 THEN <<"raw", Quote(1 + (i % 4) \div 2, d[2])>> ELSE d
ElDoc(i, x) == LET d == FTree(T.t, x) IN IF d[1] = "str" /\ i % 2 = 0 THEN <<"raw", Quote(1, d[2])>> ELSE d
Doc == IF T.k = "map" THEN <<"obj", [i \in 1..Len(els) |-> <<KeyDoc(i, Els[i][1]), FTree(T.vt, Els[i][2])>>] \o <<>>>>
       ELSE <<"arr", [i \in 1..Len(els) |-> ElDoc(i, Els[i])] \o <<>>>>
Text_ == FRender(Doc, 1 + ((Len(els) * 3 + r) % 4), 0, 0, r % 2)
\* the meaning, by positions: order; once; last
Rule == LET E == Els IN
  CASE T.k = "seq" -> <<"seq", [i \in 1..Len(E) |-> FNorm(T.t, E[i])] \o <<>>>>
    [] T.k = "set" -> <<"seq", SetToSortSeq({FNorm(T.t, E[i]) : i \in 1..Len(E)}, LAMBDA a, b : CmpVal(a, b) < 0)>>
    [] T.k = "map" -> LET N(i) == FNorm(T.kt, E[i][1])
                          last == {i \in 1..Len(E) : \A j \in (i + 1)..Len(E) : N(j) # N(i)} IN
                      <<"map", MapSeq(SetToSortSeq(last, LAMBDA a, b : CmpVal(N(a), N(b)) < 0), LAMBDA i : <<N(i), FNorm(T.vt, E[i][2])>>)>>
Written == ph = "open"
Out == FDecode(T, Text_)
Kept == Written => Out[1] \in {"ok", "okerr"} /\ Out[2] = Rule
\* read, written and read again: the same; written in order when the type has one
Stable == Written => LET d == FDecode(T, FText(T, Rule)) IN d[2] = Rule
Unique == Written => LET x == Out[2][2] IN
   CASE T.k = "seq" -> Len(x) = Len(els)
     [] T.k = "set" -> \A i \in 1..(Len(x) - 1) : CmpVal(x[i], x[i + 1]) < 0
     [] T.k = "map" -> \A i \in 1..(Len(x) - 1) : CmpVal(x[i][1], x[i + 1][1]) < 0
Observe == Written => Emit(<<[o |-> "dec", t |-> r, s |-> Text_, x |-> <<"ok", Rule>>], [o |-> "rt", t |-> r, v |-> Rule, x |-> FNorm(T, Rule), rec |-> 1]>>)
=============================================================================
