------------------------------- MODULE MC_Builds -------------------------------
(* Somebody selects features one after another.  A format answers as soon as  *)
(* its feature is on, for every type its implementations exist for; `std`     *)
(* adds types and nothing else.  Observe lists the builds to be compared.     *)
EXTENDS Emit
VARIABLES on, std
vars == <<on, std>>
Formats == <<"bin", "json", "ron", "toml">>
Init == on = {} /\ std \in BOOLEAN
Enable == \E f \in Range(Formats) \ on : on' = on \cup {f} /\ UNCHANGED std
Std == ~std /\ std' = TRUE /\ UNCHANGED on
Next == Enable \/ Std
Spec == Init /\ [][Next]_vars
\* what a build offers: pairs of a format and a type (TOML has one type of its own)
Letter(f) == CASE f = "bin" -> "b" [] f = "json" -> "j" [] f = "ron" -> "r" [] OTHER -> "t"
OffersIn(fs, s) == {<<f, i>> \in fs \X (1..Len(Roots)) : f # "toml" /\ Letter(f) \in Roots[i].f /\ ("std" \in Roots[i].g => s)}
                   \cup {<<f, 0>> : f \in fs \cap {"toml"}}
Offers == OffersIn(on, std)
\* switching one more feature on takes nothing away, and adds only what it is about
Grows == /\ OffersIn(on \ {"json"}, std) \subseteq Offers
         /\ \A f \in on : {p \in Offers : p[1] # f} = OffersIn(on \ {f}, std)
         /\ {p \in Offers : p[2] = 0 \/ "std" \notin Roots[p[2]].g} = OffersIn(on, FALSE)
\* all builds with one format and with all of them; of the others a seeded choice (all of them, thoroughly)
Mask == Cardinality(on) * 7 + (IF "bin" \in on THEN 1 ELSE 0) + (IF "json" \in on THEN 2 ELSE 0) + (IF "ron" \in on THEN 4 ELSE 0) + (IF std THEN 16 ELSE 0)
Chosen == on # {} /\ (Thorough \/ Cardinality(on) \in {1, 4} \/ Rnd(Mask, 3, 5) % 9 = 0)
Observe == Chosen => Emit(<<[std |-> std, fmts |-> SelectSeq(Formats, LAMBDA f : f \in on),
                             lacks |-> SetToSortSeq({i \in 1..Len(Roots) : "std" \in Roots[i].g /\ ~std}, LAMBDA a, b : a < b)]>>)
=============================================================================
