-------------------------------- MODULE Slots --------------------------------
(* Ownership while fixed-size arrays (and what surrounds them) are decoded:   *)
(* a stack of containers under construction, each with the elements it owns   *)
(* slot by slot.  Shapes are trees of containers over probe elements.         *)
EXTENDS Util
P == [k |-> "p", cs |-> <<>>]
Ar(n, c) == [k |-> "arr", cs |-> Rep(c, n)]
Ve(n, c) == [k |-> "vec", cs |-> Rep(c, n)]
Tu(cs) == [k |-> "tup", cs |-> cs]
St(cs) == [k |-> "struct", cs |-> cs]
En(c) == [k |-> "enum", cs |-> <<c>>]
Op(c) == [k |-> "opt", cs |-> <<c>>]
\* the shapes the harness knows, in its order
Shapes == << Ar(0, P), Ar(1, P), Ar(2, P), Ar(3, P), Ar(5, P), Ar(3, Ar(2, P)), Ar(2, Ar(3, P)), Ar(2, Ar(2, Ar(2, P))), Ar(2, Ar(0, P)),
             Tu(<<Ar(2, P), P>>), Ar(2, Tu(<<P, P>>)), Ve(2, Ar(2, P)), Ar(2, Ve(2, P)), Op(Ar(3, P)), Ar(3, Op(P)), St(<<Ar(2, P), P, Ar(1, P)>>), Ar(2, St(<<Ar(2, P), P, Ar(1, P)>>)), En(Ar(3, P)), Ar(2, En(Ar(2, P))) >>
\* these are over elements that occupy no memory
Weightless == {20, 21}
ZShapes == << Ar(3, P), Ar(2, Ar(2, P)) >>
AllShapes == Shapes \o ZShapes
RECURSIVE Count(_)
Count(s) == IF s.k = "p" THEN 1 ELSE FoldLeft(LAMBDA a, c : a + Count(c), 0, s.cs)

(* ------------------------------- ownership ------------------------------ *)
\* frame: [s |-> shape, own |-> sequence of id sequences, one per finished slot]
Frame(s) == [s |-> s, own |-> <<>>]
Finished(f) == Len(f.own) = Len(f.s.cs)
TopF(st) == st[Len(st)]
Pop(st) == Take(st, Len(st) - 1)
OwnedBy(f) == Flat(f.own)
Owned(st) == Flat(MapSeq(st, OwnedBy))
\* the top frame takes a finished child
Fill(st, ids) == [st EXCEPT ![Len(st)].own = Append(@, ids)]

(* --------------------------------- text --------------------------------- *)
Name(i) == <<96 + i>>
OpenT(fmt, s) ==
  CASE fmt = "b" -> CASE s.k = "vec" -> LE8(Len(s.cs)) [] s.k = "enum" -> <<0, 0>> [] s.k = "opt" -> <<1>> [] OTHER -> <<>>
    [] s.k = "opt" -> <<>>
    [] fmt = "j" -> CASE s.k = "struct" -> C("{") [] s.k = "enum" -> C("{\"V\":[") [] OTHER -> C("[")
    [] OTHER -> CASE s.k = "vec" -> C("[") [] s.k = "enum" -> C("V(") [] OTHER -> C("(")
CloseT(fmt, s) ==
  IF fmt = "b" \/ s.k = "opt" THEN <<>>
  ELSE IF fmt = "j" THEN CASE s.k = "struct" -> C("}") [] s.k = "enum" -> C("]}") [] OTHER -> C("]")
  ELSE CASE s.k = "vec" -> C("]") [] OTHER -> C(")")
\* what precedes child i
LeadT(fmt, s, i) == (IF fmt # "b" /\ i > 1 THEN C(",") ELSE <<>>)
    \o (IF s.k = "struct" /\ fmt # "b" THEN (IF fmt = "j" THEN <<34>> \o Name(i) \o <<34>> ELSE Name(i)) \o C(":") ELSE <<>>)
ValueT(fmt, n) == IF fmt = "b" THEN <<n>> ELSE Dec(n)
=============================================================================
