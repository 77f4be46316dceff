------------------------------- MODULE MC_Spell -------------------------------
(* A writer that may spell the same document differently at every step:       *)
(* blanks and comments between tokens, order of members, spelling of          *)
(* characters in strings and of exponents in floats.                          *)
EXTENDS TextFmt
VARIABLES ph, r, v, sp
vars == <<ph, r, v, sp>>
T == Roots[r].t
\* sp: gap style, escape style, member order, decimal point shift, exponent style, trailing commas
Init == ph = "idle" /\ r = 0 /\ v = Unit /\ sp = <<1, 0, 0, -1, 0, 0>>
Choose == /\ ph = "idle" /\ r' \in FRoots /\ ph' = "typed" /\ UNCHANGED <<v, sp>>
Write == /\ ph = "typed" /\ v' \in Range(Samples(T, Pick(5, 14))) /\ ph' = "spelled" /\ UNCHANGED <<r, sp>>
NG == Len(Gaps) + 4
Respell(d, x) == sp' = [sp EXCEPT ![d] = x]
Blanks == \E k \in 2..NG : Respell(1, k)
NE == IF IsJson THEN 6 ELSE 7
Escapes == \E k \in 1..(NE - 1) : Respell(2, k)
Order == \E k \in 1..2 : Respell(3, k)
Commas == ~IsJson /\ Respell(6, 1)
Exponent == \E k \in {0, 1, 3, 20} : \E s \in 0..3 : sp' = [sp EXCEPT ![4] = k, ![5] = s]
Both == \E k \in 1..Pick(3, 12) : sp' = <<1 + (Rnd(r, k, 1) % NG), Rnd(r, k, 2) % NE, Rnd(r, k, 3) % 3, (Rnd(r, k, 4) % 23) - 1, Rnd(r, k, 5) % 4, Rnd(r, k, 6) % 2>>
Change == ph = "spelled" /\ (Blanks \/ Escapes \/ Order \/ Commas \/ Exponent \/ Both) /\ ph' = "respelled" /\ UNCHANGED <<r, v>>
Next == Choose \/ Write \/ Change
Spec == Init /\ [][Next]_vars

IsFloat(l) == \E i \in 1..Len(l) : l[i] \in {46, 101, 69}
RECURSIVE Nums(_)
Nums(d) == CASE d[1] = "num" -> IF sp[4] >= 0 /\ IsFloat(d[2]) THEN <<"num", FloatSpell(d[2], sp[4], sp[5])>> ELSE d
             [] d[1] = "arr" -> <<"arr", MapSeq(d[2], LAMBDA x : Nums(x))>>
             [] d[1] = "par" -> <<"par", d[2], MapSeq(d[3], LAMBDA x : Nums(x))>>
             [] d[1] = "named" -> <<"named", d[2], MapSeq(d[3], LAMBDA m : <<m[1], Nums(m[2])>>)>>
             [] d[1] = "obj" -> <<"obj", MapSeq(d[2], LAMBDA m : <<Nums(m[1]), Nums(m[2])>>)>>
             [] OTHER -> d
Doc == FTree(T, v)
Spelled == FRender(Nums(Doc), sp[1], sp[2], sp[3], sp[6])
\* values up to the spelling of their floats
RECURSIVE Meaning(_)
Meaning(x) ==
  CASE x[1] = "flt" -> <<"flt", NumVal(x[2])>>
    [] x[1] = "some" -> Some(Meaning(x[2]))
    [] x[1] \in {"seq", "tup", "rec"} -> <<x[1], MapSeq(x[2], Meaning)>>
    [] x[1] = "map" -> <<"map", MapSeq(x[2], LAMBDA p : <<Meaning(p[1]), Meaning(p[2])>>)>>
    [] x[1] = "var" -> <<"var", x[2], MapSeq(x[3], Meaning)>>
    [] OTHER -> x
Plain == FNorm(T, v)
SameMeaning == ph \in {"spelled", "respelled"} =>
   LET d == FDecode(T, Spelled) IN d[1] = "ok" /\ Meaning(d[2]) = Meaning(Plain)
Observe == ph \in {"spelled", "respelled"} => Emit(<<[o |-> "dec", t |-> r, s |-> Spelled, x |-> <<"ok", Plain>>]>>)
=============================================================================
