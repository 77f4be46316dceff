------------------------------- MODULE MC_Large -------------------------------
(* Text round trips of long strings and collections, wherever they stand.     *)
EXTENDS TextFmt, Large
VARIABLES ph, r, h, n
vars == <<ph, r, h, n>>
FirstOf(t) == FNorm(t, Samples(t, 3)[1])
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ h = <<>> /\ n = 0
Choose == ph = "idle" /\ r' \in FRoots /\ (\E k \in Range(Take(Holes(Roots[r'].t), Pick(2, 8))) : h' = k) /\ ph' = "placed" /\ UNCHANGED n
Grow == ph = "placed" /\ n' \in {1, 2, 3, 11} /\ ph' = "small" /\ UNCHANGED <<r, h>>
Blow == ph = "placed" /\ n' \in Sizes /\ ph' = "large" /\ UNCHANGED <<r, h>>
Next == Choose \/ Grow \/ Blow
Spec == Init /\ [][Next]_vars
Val(c) == Fill(h[1], h[2], c)
\* what is read back: the long part, and the rest as a round trip leaves it
Back(c) == Fill(FNorm(T, h[1]), h[2], c)
Same == ph = "small" => LET c == Out_(h[3], n) IN FDecode(T, FText(T, Val(c))) = <<"ok", Back(c)>>
Observe == ph = "large" => LET c == Long_(h[3], n) IN Emit(<<[o |-> "rt", t |-> r, big |-> 1, v |-> Val(c), x |-> Back(c)]>>)
=============================================================================
