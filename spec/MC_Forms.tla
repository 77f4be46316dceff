------------------------------- MODULE MC_Forms -------------------------------
(* A programmer dresses the declaration of a type, one form after another:    *)
(* visibility, documentation, foreign attributes, how the derives and the     *)
(* nserde attributes are grouped and ordered, where the bounds stand, commas, *)
(* discriminants, macros, the path of the crate.  What the declaration says   *)
(* about its fields stays what it was.  The dressed declarations are given to *)
(* the Rust compiler; the modules about values then run on those types.       *)
EXTENDS FormBodies, Emit
VARIABLES body, no, stage, form, slots
vars == <<body, no, stage, form, slots>>
\* FormBodies!Bodies: [n, k: kind, gen: has type parameters, unit: only unit variants, place: may stand in a module of its own,
\*                     slots: <<[k |-> "item"|"field"|"variant"|"part", items |-> <<texts>>]>>]; slot 1 is the item itself
B == Bodies[body]
\* what a form may be, given the forms chosen before it
Dims == <<"place", "vis", "crate", "path", "split", "doc", "foreign", "gen", "gdef", "gcomma", "comma", "mac", "disc", "tyq", "ghost", "len">>
Values(d, f) ==
  CASE d = "place" -> IF B.place THEN {0, 1} ELSE {0}
    [] d = "vis" -> IF f.place = 1 THEN 1..4 ELSE 0..4            \* private, pub, pub(crate), pub(super), pub(in crate)
    [] d = "crate" -> 0..4                                        \* not named, nanoserde, ::nanoserde, re-exported twice
    [] d = "path" -> IF f.place = 1 /\ f.crate >= 2 THEN {0, 2} ELSE 0..2   \* how the derives are named
    [] d = "split" -> 0..3                                        \* one derive, the other order, two, two with attributes between
    [] d = "doc" -> 0..4
    [] d = "foreign" -> 0..5
    [] d = "gen" -> IF B.gen THEN 0..3 ELSE {0}                   \* bounds inline, in where, in both, inline with a path
    [] d \in {"gdef", "gcomma"} -> IF B.gen THEN {0, 1} ELSE {0}
    [] d = "comma" -> {0, 1}
    [] d = "mac" -> 0..6                                          \* what of it comes through macro_rules
    [] d = "disc" -> IF B.k = "enum" THEN (IF B.unit THEN 0..3 ELSE 0..2) ELSE {0}
    [] d = "tyq" -> {0, 1, 2}                                     \* type names bare, with a path, with a leading ::
    [] d = "ghost" -> {0, 1}                                      \* a member configured away
    [] d = "len" -> 0..3                                          \* how an array length is written
Variants == Pick(8, 40)
Init == body = 0 /\ no = 0 /\ stage = 0 /\ form = <<>> /\ slots = <<>>
Begin == body = 0 /\ body' \in 1..Len(Bodies) /\ no' \in 0..Variants - 1 /\ stage' = 1
         /\ form' = [d \in Range(Dims) |-> 0] /\ slots' = [i \in 1..Len(Bodies[body'].slots) |-> [vis |-> 1, doc |-> 0, foreign |-> 0, pos |-> 0, tc |-> 0,
              groups |-> MapSeq(Bodies[body'].slots[i].items, LAMBDA x : <<x>>)]]
\* the k-th of the values, seeded; variant 0 stays plain
Seeded(S, k) == IF no = 0 THEN CHOOSE x \in S : \A y \in S : x <= y ELSE Nth(S, Rnd(body * 41 + no, k, 11))
Dress == body > 0 /\ stage <= Len(Dims) /\ form' = [form EXCEPT ![Dims[stage]] = Seeded(Values(Dims[stage], form), stage)]
         /\ stage' = stage + 1 /\ UNCHANGED <<body, no, slots>>
\* attributes of one slot in another order and other groups
RECURSIVE Cut(_, _)
Cut(s, bits) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN <<s>>
  ELSE LET rest == Cut(Tail(s), bits \div 2) IN IF bits % 2 = 0 THEN <<(<<Head(s)>> \o rest[1])>> \o Tail(rest) ELSE <<<<Head(s)>>>> \o rest
CrateItem == <<"", "crate = \"nanoserde\"", "crate = \"::nanoserde\"", "crate = \"crate::re::ns\"", "crate = \"crate::re::deep::again\"">>[form.crate + 1]
Items(i) == B.slots[i].items \o (IF i = 1 /\ form.crate > 0 THEN <<CrateItem>> ELSE <<>>)
SlotOf == stage - Len(Dims)
Key(k) == Rnd(body * 41 + no, stage * 13, k)
Arrange == body > 0 /\ SlotOf \in 1..Len(B.slots)
  /\ slots' = [slots EXCEPT ![SlotOf] = IF no = 0 THEN @ ELSE
       [vis |-> Key(1) % 4, doc |-> Key(2) % 4, foreign |-> Key(3) % 4, pos |-> Key(4) % 3, tc |-> Key(5) % 2,
        groups |-> LET s == Items(SlotOf) IN Cut(Perm(s, Key(6) % (Len(s) * Len(s) + 1)), Key(7) % 16)]]
  /\ stage' = stage + 1 /\ UNCHANGED <<body, no, form>>
Next == Begin \/ Dress \/ Arrange
Spec == Init /\ [][Next]_vars

Done == body > 0 /\ stage = Len(Dims) + Len(B.slots) + 1
\* what a derive sees of a slot: its nserde items, however they are grouped, without the name of the crate
Crates == {"crate = \"nanoserde\"", "crate = \"::nanoserde\"", "crate = \"crate::re::ns\"", "crate = \"crate::re::deep::again\""}
View(i) == LET s == Flat(slots[i].groups) IN <<{s[k] : k \in 1..Len(s)} \ Crates, Cardinality({k \in 1..Len(s) : s[k] \notin Crates})>>
Same == body > 0 => \A i \in 1..Len(B.slots) : LET s == B.slots[i].items IN View(i) = <<{s[k] : k \in 1..Len(s)}, Len(s)>>
Fits == body > 0 => \A k \in 1..Len(Dims) : k < stage => form[Dims[k]] \in Values(Dims[k], form)
Observe == Done => Emit(<<[body |-> B.n, no |-> no, form |-> form, slots |-> slots]>>)
=============================================================================
