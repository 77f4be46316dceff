------------------------------- MODULE MC_Slots -------------------------------
(* A document is fed to the decoder of a shape piece by piece; at any point   *)
(* an element, a separator or a bracket may be wrong, or the input may end.   *)
EXTENDS Slots, Emit
VARIABLES ph, shape, stack, text, made, freed, given
vars == <<ph, shape, stack, text, made, freed, given>>
Fmt == IOEnv.VERIF_FMT
Text_ == Fmt # "b"
Init == ph = "idle" /\ shape = 0 /\ stack = <<>> /\ text = <<>> /\ made = 0 /\ freed = <<>> /\ given = <<>>
Begin == /\ ph = "idle" /\ shape' \in 1..Len(AllShapes) /\ ph' = "run" /\ stack' = <<Frame(AllShapes[shape'])>> /\ text' = OpenT(Fmt, AllShapes[shape']) /\ UNCHANGED <<made, freed, given>>
F == TopF(stack)
NextChild == F.s.cs[Len(F.own) + 1]
Lead == LeadT(Fmt, F.s, Len(F.own) + 1)
Running == ph = "run"
Descend == /\ Running /\ ~Finished(F) /\ NextChild.k # "p" /\ stack' = Append(stack, Frame(NextChild)) /\ text' = text \o Lead \o OpenT(Fmt, NextChild) /\ UNCHANGED <<ph, shape, made, freed, given>>
Good == /\ Running /\ ~Finished(F) /\ NextChild.k = "p" /\ made' = made + 1 /\ text' = text \o Lead \o ValueT(Fmt, made + 1) /\ stack' = Fill(stack, <<made + 1>>) /\ UNCHANGED <<ph, shape, freed, given>>
Close == /\ Running /\ Finished(F) /\ text' = text \o CloseT(Fmt, F.s)
         /\ IF Len(stack) = 1 THEN ph' = "done" /\ given' = OwnedBy(F) /\ stack' = <<>> ELSE stack' = Fill(Pop(stack), OwnedBy(F)) /\ UNCHANGED <<ph, given>>
         /\ UNCHANGED <<shape, made, freed>>
\* the decoder gives up; what is on the stack is freed container by container from the innermost
Fail(t, m, ids) == /\ ph' = "unwind" /\ text' = text \o t /\ made' = m /\ freed' = freed \o ids /\ UNCHANGED <<shape, stack, given>>
Unwind == ph = "unwind" /\ (IF stack = <<>> THEN ph' = "failed" /\ UNCHANGED <<stack, freed>> ELSE freed' = freed \o OwnedBy(F) /\ stack' = Pop(stack) /\ UNCHANGED ph) /\ UNCHANGED <<shape, text, made, given>>
\* an element refuses: before it exists, or after it came to be
Refuse == Running /\ ~Finished(F) /\ NextChild.k = "p" /\ (Fail(Lead \o ValueT(Fmt, 250), made, <<>>) \/ Fail(Lead \o ValueT(Fmt, 255), made + 1, <<made + 1>>))
\* an element of another kind, one the lexer stumbles over right behind, one out of range
Wrong == Text_ /\ Running /\ ~Finished(F) /\ \E w \in {C("true"), C("\"x\""), C("7@"), C("300"), C("-1"), C("{"), C(":"), C("1.5")} :
         (NextChild.k = "p" \/ w \in {C("true"), C("300"), C(":")}) /\ ~(F.s.k = "opt" /\ w = C(":")) /\ Fail(Lead \o w, made, <<>>)
\* no separator after an element, when the next one starts: the array frees the element it was about to store as well
NoSep == Text_ /\ Running /\ F.s.k \in {"arr", "tup"} /\ Len(F.own) > 0 /\ \E w \in {C(" 7"), C(":"), C("(")} : Fail(w, made, <<>>)
\* the bracket comes too early, too late, or is another one
Early == Text_ /\ Running /\ F.s.k \in {"arr", "tup"} /\ ~Finished(F) /\ \E c \in {0, 1} : (c = 0 \/ Len(F.own) > 0) /\ Fail((IF c = 1 THEN C(",") ELSE <<>>) \o CloseT(Fmt, F.s), made, <<>>)
\* one element too many is not even looked at
Late == Text_ /\ Running /\ F.s.k \in {"arr", "tup"} /\ Finished(F) /\ \E w \in {C("7"), C("[]"), C("7,8"), C("255")} : Fail((IF Len(F.own) > 0 THEN C(",") ELSE <<>>) \o w \o CloseT(Fmt, F.s), made, <<>>)
Other == Text_ /\ Running /\ F.s.k \in {"arr", "tup"} /\ Finished(F) /\ Fail(IF Fmt = "j" THEN C("}") ELSE C("]"), made, <<>>)
CommaOther == Text_ /\ Running /\ F.s.k = "arr" /\ Finished(F) /\ Len(F.own) > 0 /\ Fail(IF Fmt = "j" THEN C(",}") ELSE C(",}"), made, <<>>)
\* in text, a number only ends at what follows it, and the end of the text is as good as any
Cut == Running /\ ~(Finished(F) /\ ~Text_ /\ FALSE) /\ (Text_ \/ Count(AllShapes[shape]) > made \/ FALSE) /\ ~(F.s.k = "opt" /\ Len(stack) = 1 /\ Finished(F)) /\ Fail(<<>>, made, <<>>)
Next == Begin \/ Descend \/ Good \/ Close \/ Refuse \/ Wrong \/ NoSep \/ Early \/ Late \/ Other \/ CommaOther \/ Cut \/ Unwind
Spec == Init /\ [][Next]_vars

Bag(s) == [x \in 1..made |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
\* every element that came to be is in exactly one place
OnePlace == \A x \in 1..made : Bag(Owned(stack) \o freed \o given)[x] = 1
Known == Len(Owned(stack) \o freed \o given) = made
\* nothing survives a failure, nothing is freed in a success, and the elements are handed over in order
NothingKept == ph = "failed" => Owned(stack) = <<>> /\ given = <<>>
InOrder == ph = "done" => given = [i \in 1..Count(AllShapes[shape]) |-> i] \o <<>> /\ freed = <<>>
Observe ==
  CASE ph = "failed" -> Emit(<<[o |-> "own", t |-> shape, s |-> text, m |-> made, k |-> 0]>>)
    [] ph = "done" -> Emit(<<[o |-> "own", t |-> shape, s |-> text, m |-> made, k |-> 1]>>)
    [] OTHER -> TRUE
=============================================================================
