------------------------------ MODULE MC_EnumsB ------------------------------
(* A forger changes the variant index of an encoded enum value, or puts       *)
(* another variant's payload behind it.                                       *)
EXTENDS Bin, Emit
VARIABLES ph, r, src, ix, body
vars == <<ph, r, src, ix, body>>
E(i) == Res(Roots[i].t)
EnumRoots == {i \in RootsOf("b", Tags) : E(i).k = "enum"}
Vs == E(r).vs
N == Len(Vs)
Init == ph = "idle" /\ r = 0 /\ src = Unit /\ ix = 0 /\ body = <<>>
Choose == /\ ph = "idle" /\ r' \in EnumRoots /\ ph' = "typed" /\ UNCHANGED <<src, ix, body>>
Write == /\ ph = "typed" /\ src' \in Range(BinSamples(E(r), IF N > 20 THEN 7 ELSE Pick(10, 30))) /\ ix' = src'[2] /\ body' = Drop(SerBin(E(r), src'), 2) /\ ph' = "sent" /\ UNCHANGED r
Indices == (IF N <= 12 THEN 0..(N + 1) ELSE {0, 1, 127, 128, 254, 255, 256, 257, 299, 300, 301, 302, 303}) \cup {N, N + 1, 255, 256, 256 * ix, 256 + ix, 32767, 32768 + ix, 65280 + ix, 65535}
Reindex == /\ ph = "sent" /\ ix' \in {i \in Indices : i # ix /\ i < 65536} /\ ph' = "forged" /\ UNCHANGED <<r, src, body>>
Cut == /\ ph = "sent" /\ \E k \in 0..Len(body) : k < Len(body) /\ k < 12 /\ body' = Take(body, k) /\ ph' = "cut" /\ UNCHANGED <<r, src, ix>>
Next == Choose \/ Write \/ Reindex \/ Cut
Spec == Init /\ [][Next]_vars
B == <<ix % 256, ix \div 256>> \o body
Out == DeBin(E(r), B, 0)
Identity == ph = "sent" => B = SerBin(E(r), src) /\ Out = <<"ok", Norm("b", E(r), src), Len(B), FALSE>>
\* the index alone says which variant is read; the ones past the last belong to none
ByIndex == ph = "forged" => LET d == Out IN IF ix >= N THEN d = <<"err", 0, "disc">> ELSE d[1] = "ok" => d[2][2] = ix
Short == ph = "cut" => Out[1] = "err"
\* the payload starts right after the index and is read by the variant's own fields
Behind == ph = "forged" /\ ix < N => LET d == Out IN (d[1] = "err" => d[2] >= 2) /\ (d[1] = "ok" /\ Vs[ix + 1].k = "unit" => d[3] = 2)
Observe == ph \in {"sent", "forged", "cut"} => LET d == Out IN
  Emit(<<[o |-> "dec", t |-> r, b |-> B, l |-> 1, x |-> IF d[1] = "ok" THEN (IF d[4] THEN <<"okerr", d[2], d[3]>> ELSE <<"ok", d[2], d[3]>>) ELSE IF d[3] = "big" THEN <<"big">> ELSE d]>>
       \o (IF ph = "sent" /\ ~Hashy(E(r), src) THEN <<[o |-> "enc", t |-> r, v |-> src, b |-> B]>> ELSE <<>>))
=============================================================================
