------------------------------ MODULE MC_LargeB -------------------------------
(* Binary round trips of long strings and collections, wherever they stand,   *)
(* and the bytes of those whose elements are all alike.                       *)
EXTENDS Bin, Large
VARIABLES ph, r, h, n
vars == <<ph, r, h, n>>
FirstOf(t) == Norm("b", t, BinSamples(t, 3)[1])
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ h = <<>> /\ n = 0
Choose == ph = "idle" /\ r' \in RootsOf("b", Tags) /\ (\E k \in Range(Take(Holes(Roots[r'].t), Pick(2, 8))) : h' = k) /\ ph' = "placed" /\ UNCHANGED n
Grow == ph = "placed" /\ n' \in {1, 2, 3, 11} /\ ph' = "small" /\ UNCHANGED <<r, h>>
Blow == ph = "placed" /\ n' \in Sizes /\ ph' = "large" /\ UNCHANGED <<r, h>>
Next == Choose \/ Grow \/ Blow
Spec == Init /\ [][Next]_vars
Val(c) == Fill(h[1], h[2], c)
Back(c) == Fill(Norm("b", T, h[1]), h[2], c)
Same == ph = "small" => LET c == Out_(h[3], n) b == SerBin(T, Val(c)) IN DeBin(T, b, 0) = <<"ok", Back(c), Len(b), FALSE>>
\* a long part of equal elements: the count, then the elements; around it the bytes of the rest
Alike == IF h[3].k = "str" THEN <<97, 233, 128512>> ELSE First(h[3].t)
Flat_ == h[3].k \in {"str", "seq"}
ElBytes == IF h[3].k = "str" THEN Utf8(Alike) ELSE SerBin(h[3].t, Alike)
Written(k) == IF h[3].k = "str" THEN <<"str", RepSeq(Alike, k)>> ELSE <<"seq", RepSeq(<<Alike>>, k)>>
LongW(k) == IF h[3].k = "str" THEN <<"str", Cnt(k, Alike)>> ELSE <<"seq", Cnt(k, <<Alike>>)>>
Count(k) == LE8(IF h[3].k = "str" THEN 7 * k ELSE k)
\* the first difference between no and one element is the count
Split == LET a == SerBin(T, Val(Written(0))) b == SerBin(T, Val(Written(1))) IN
         CHOOSE p \in 0..Len(a) : /\ SubSeq(b, p + 1, p + 8) = Count(1) /\ SubSeq(a, p + 1, p + 8) = Count(0) /\ Take(a, p) = Take(b, p)
                                  /\ b = Take(a, p) \o Count(1) \o ElBytes \o Drop(a, p + 8)
Layout(k, mid) == LET a == SerBin(T, Val(Written(0))) p == Split IN Take(a, p) \o Count(k) \o mid \o Drop(a, p + 8)
Laid == ph = "small" /\ Flat_ => SerBin(T, Val(Written(n))) = Layout(n, RepSeq(ElBytes, n))
Zero == h[3].k = "seq" /\ ElBytes = <<>>
LenAll(k) == Len(Layout(k, <<>>)) + k * Len(ElBytes)
Observe == ph = "large" => LET c == Long_(h[3], n) IN
  Emit(<<[o |-> "rt", t |-> r, big |-> 1, v |-> Val(c), x |-> Back(c), pre |-> <<1, 2>>, post |-> <<0>>]>>
       \o (IF Flat_ /\ ~Zero THEN LET b == Layout(n, Cnt(n, ElBytes)) IN
            << [o |-> "enc", t |-> r, big |-> 1, v |-> Val(LongW(n)), b |-> b],
               [o |-> "dec", t |-> r, big |-> 1, b |-> b, x |-> <<"ok", Fill(Norm("b", T, h[1]), h[2], LongW(n)), LenAll(n)>>] >>
            \o << [o |-> "dec", t |-> r, big |-> 1, b |-> Layout(n + 1, Cnt(n, ElBytes)), x |-> IF h[2] = <<>> THEN <<"err">> ELSE <<"any">>] >> ELSE <<>>))
=============================================================================
