------------------------------- MODULE MC_Round -------------------------------
(* A value is written as text, the text is read back.                         *)
EXTENDS TextFmt
VARIABLES ph, r, v, text, got
vars == <<ph, r, v, text, got>>
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ v = Unit /\ text = <<>> /\ got = <<>>
Choose == /\ ph = "idle" /\ r' \in FRoots /\ ph' = "typed" /\ UNCHANGED <<v, text, got>>
Write == /\ ph = "typed" /\ \E x \in Range(Samples(T, Pick(12, 40))) : v' = x /\ text' = FText(T, x)
         /\ ph' = "written" /\ UNCHANGED <<r, got>>
Read == /\ ph = "written" /\ got' = FDecode(T, text) /\ ph' = "read" /\ UNCHANGED <<r, v, text>>
\* writing what was read gives the same text again
Rewrite == /\ ph = "read" /\ v' = got[2] /\ text' = FText(T, got[2]) /\ ph' = "again" /\ UNCHANGED <<r, got>>
Next == Choose \/ Write \/ Read \/ Rewrite
Spec == Init /\ [][Next]_vars

RoundTrip == ph = "read" => got = <<"ok", FNorm(T, v)>>
Stable == ph = "again" => FDecode(T, text) = got
Observe == ph = "read" => Emit(<<[o |-> "rt", t |-> r, v |-> v, x |-> got[2], rec |-> 1]>>)
=============================================================================
