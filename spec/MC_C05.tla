------------------------------- MODULE MC_C05 -------------------------------
(* nanoserde writes a value; a reader that knows only RFC 8259 reads it.      *)
EXTENDS JsonText, Rfc8259, Emit
VARIABLES ph, r, v, text, tree
vars == <<ph, r, v, text, tree>>
T == Roots[r].t
Init == ph = "idle" /\ r = 0 /\ v = Unit /\ text = <<>> /\ tree = <<>>
Choose == /\ ph = "idle" /\ r' \in {x \in RootsOf("j", Tags) : Std(Roots[x].t, 6)} /\ ph' = "typed" /\ UNCHANGED <<v, text, tree>>
Write == /\ ph = "typed" /\ \E x \in Range(Samples(T, Pick(12, 40))) : v' = x /\ text' = Text(T, x)
         /\ ph' = "written" /\ UNCHANGED <<r, tree>>
StdRead == /\ ph = "written" /\ tree' = Rfc(text) /\ ph' = "read" /\ UNCHANGED <<r, v, text>>
Next == Choose \/ Write \/ StdRead
Spec == Init /\ [][Next]_vars
WellFormed == ph = "read" => tree[1]
Denotes == ph = "read" => Is8259(<<>>, T, v, tree[2])
\* whatever is strict JSON for the other reader is so for nanoserde's own grammar and gives the value back
Agree == ph = "read" => Decode(T, text)[1] = "ok"
Observe == ph = "written" => Emit(<<[o |-> "ser", t |-> r, v |-> v, rec |-> 1]>>)
=============================================================================
