------------------------------- MODULE MC_C03 -------------------------------
(* An adversary between encoder and decoder: it starts from some encoding (or *)
(* nothing) and cuts, overwrites, inserts, removes or prepends bytes.         *)
EXTENDS Bin, Emit
VARIABLES ph, r, b, how
vars == <<ph, r, b, how>>
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ b = <<>> /\ how = "none"
Choose == /\ ph = "idle" /\ r' \in RootsOf("b", Tags) /\ ph' = "typed" /\ UNCHANGED <<b, how>>
Encode == /\ ph = "typed" /\ \E x \in Range(BinSamples(T, Pick(IF IOEnv.VERIF_LOC = "1" THEN 2 ELSE 4, 12))) : b' = SerBin(T, x)
          /\ ph' = "sent" /\ how' = "whole" /\ UNCHANGED r
Garbage == /\ ph = "typed" /\ \E k \in 1..Pick(6, 60) :
              b' = [i \in 1..(Rnd(r, k, 0) % 40) |-> LET x == Rnd(r, k, i) IN IF x % 3 = 0 THEN 0 ELSE IF x % 3 = 1 THEN x % 4 ELSE x % 256] \o <<>>
           /\ ph' = "hit" /\ how' = "garbage" /\ UNCHANGED r
\* positions an action may touch: all of a short encoding, a sample of a long one
Pos == IF Len(b) <= Pick(40, 90) THEN 1..Len(b)
       ELSE (1..Pick(20, 45)) \cup {1 + (Rnd(r, Len(b), k) % Len(b)) : k \in 1..Pick(20, 45)}
Cut == \E k \in Pos : b' = Take(b, k - 1) /\ how' = "prefix"
Vals == {0, 1, 2, 3, 5, 127, 128, 192, 237, 240, 255}
Overwrite == \E i \in Pos : \E x \in (IF Thorough THEN Vals ELSE {0, 1, 2, 5, 128, 255}) : x # b[i] /\ b' = [b EXCEPT ![i] = x] /\ how' = "byte"
Bump == \E i \in Pos : \E d \in {1, 255} : b' = [b EXCEPT ![i] = (@ + d) % 256] /\ how' = "byte"
Delete == \E i \in Pos : b' = Take(b, i - 1) \o Drop(b, i) /\ how' = "less"
Insert == \E i \in Pos : b' = Take(b, i - 1) \o <<Rnd(r, i, Len(b)) % 256>> \o Drop(b, i - 1) /\ how' = "more"
\* eight bytes replaced by an extreme length
Lens == {<<255,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,127>>, <<0,0,0,0,1,0,0,0>>, <<0,0,0,0,0,0,0,128>>,
         <<255,255,255,127,0,0,0,0>>, <<0,0,0,16,0,0,0,0>>, LE8(Len(b)), LE8(Len(b) + 1)}
Stretch == \E i \in Pos : i + 7 <= Len(b) /\ \E l \in Lens : b' = Take(b, i - 1) \o l \o Drop(b, i + 7) /\ how' = "length"
Attack == /\ ph = "sent" /\ (Cut \/ Overwrite \/ Bump \/ Delete \/ Insert \/ Stretch) /\ ph' = "hit" /\ UNCHANGED r
Next == Choose \/ Encode \/ Garbage \/ Attack
Spec == Init /\ [][Next]_vars

Out == DeBin(T, b, 0)
\* the decoder always ends with a value inside the input or an error inside it
Total == ph \in {"sent", "hit"} => LET d == Out IN
   /\ d[1] \in {"ok", "err"}
   /\ d[1] = "ok" => d[3] <= Len(b) /\ d[3] >= MinW(T)
   /\ d[1] = "err" => d[2] <= Len(b) /\ d[3] \in {"len", "range", "disc", "big"}
PrefixesFail == how = "prefix" => Out[1] = "err"
\* what is read determines what was there: only lenient tag bytes are not reproduced
Faithful == ph = "hit" /\ Out[1] = "ok" /\ ~Out[4] => LET d == Out IN DeBin(T, SubSeq(b, 1, d[3]), 0) = d
Locate == IOEnv.VERIF_LOC = "1"
Expected(d) == IF d[1] = "ok" THEN (IF d[4] THEN <<"okerr", d[2], d[3]>> ELSE <<"ok", d[2], d[3]>>) ELSE IF d[3] = "big" THEN <<"big">> ELSE d
\* an error is at or before the byte that was cut away or made wrong, at the item that needs it
AtItem == how = "prefix" => LET d == Out IN d[1] = "err" => d[2] <= Len(b)
Observe == ph \in {"sent", "hit"} =>
  LET d == Out IN
  IF ~Locate THEN Emit(<<[o |-> "dec", t |-> r, b |-> b, x |-> Expected(d)]>>)
  ELSE Emit(IF d[1] = "err" THEN <<[o |-> "dec", t |-> r, b |-> b, x |-> Expected(d), l |-> 1]>> ELSE <<>>)
=============================================================================
