------------------------------- MODULE MC_C01 -------------------------------
(* A writer puts one value into a buffer that may already hold bytes, some    *)
(* bytes follow, and a reader decodes from where the value starts.            *)
EXTENDS Bin, Emit
VARIABLES ph, r, v, start, fin, buf, got
vars == <<ph, r, v, start, fin, buf, got>>
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ v = Unit /\ start = 0 /\ fin = 0 /\ buf = <<>> /\ got = <<>>
Choose == /\ ph = "idle" /\ r' \in RootsOf("b", Tags) /\ ph' = "typed" /\ UNCHANGED <<v, start, fin, buf, got>>
Write == /\ ph = "typed"
         /\ \E x \in Range(BinSamples(T, Pick(8, 26))) : \E pre \in {<<>>, <<7, 0, 255>>} :
              /\ v' = x /\ start' = Len(pre) /\ buf' = pre \o SerBin(T, x) /\ fin' = Len(buf')
         /\ ph' = "written" /\ UNCHANGED <<r, got>>
Follow == /\ ph = "written" /\ buf' \in {buf, buf \o <<0>>, buf \o <<1, 255, 1>>}
          /\ ph' = "followed" /\ UNCHANGED <<r, v, start, fin, got>>
Read == /\ ph = "followed" /\ got' = DeBin(T, buf, start) /\ ph' = "read" /\ UNCHANGED <<r, v, start, fin, buf>>
Next == Choose \/ Write \/ Follow \/ Read
Spec == Init /\ [][Next]_vars

RoundTrip == ph = "read" => got[1] = "ok" /\ got[2] = Norm("b", T, v) /\ got[4] = FALSE
ExactConsumption == ph = "read" => got[3] = fin
\* the value's bytes do not depend on their surroundings
Local == ph = "read" => DeBin(T, SubSeq(buf, start + 1, fin), 0)[2] = got[2]
Observe == ph = "read" =>
  Emit(<<[o |-> "rt", t |-> r, v |-> v, x |-> got[2], pre |-> Take(buf, start), post |-> Drop(buf, fin)]>>)
=============================================================================
