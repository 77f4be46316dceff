------------------------------- MODULE MC_C02 -------------------------------
(* Two separately built programs that share only the layout: one encodes, the *)
(* other decodes bytes it never produced itself.                              *)
EXTENDS Bin, Emit
VARIABLES ph, r, v, wire
vars == <<ph, r, v, wire>>
T == Roots[r].t
\* a container with unspecified iteration order and more than one element
RECURSIVE Loose(_, _)
LooseF(fs, vs) == \E i \in 1..Len(fs) : ~fs[i].s /\ Loose(fs[i].t, vs[i])
Loose(tt, x) ==
  LET t == Res(tt) IN
  CASE t.k = "opt" -> x # None /\ Loose(t.t, x[2])
    [] t.k \in {"seq", "arr"} -> \E i \in 1..Len(x[2]) : Loose(t.t, x[2][i])
    [] t.k = "set" -> (t.h /\ Len(x[2]) > 1) \/ \E i \in 1..Len(x[2]) : Loose(t.t, x[2][i])
    [] t.k = "map" -> (t.h /\ Len(x[2]) > 1) \/ \E i \in 1..Len(x[2]) : Loose(t.kt, x[2][i][1]) \/ Loose(t.vt, x[2][i][2])
    [] t.k \in {"tup", "tstruct"} -> \E i \in 1..Len(t.ts) : Loose(t.ts[i], x[2][i])
    [] t.k = "struct" -> LooseF(t.fs, x[2])
    [] t.k = "enum" -> LET w == t.vs[x[2] + 1] IN IF w.k = "rec" THEN LooseF(w.fs, x[3]) ELSE \E i \in 1..Len(w.fs) : Loose(w.fs[i], x[3][i])
    [] OTHER -> FALSE
\* number of bytes, stated independently of the encoder
RECURSIVE Size(_, _)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SizeF(fs, vs) == Sum([i \in 1..Len(fs) |-> IF fs[i].s THEN 0 ELSE Size(fs[i].w, IF fs[i].px = "" THEN vs[i] ELSE Conv(fs[i].px, vs[i]))])
Size(tt, x) ==
  LET t == Res(tt) IN
  CASE t.k \in {"int", "flt"} -> t.b
    [] t.k = "bool" -> 1 [] t.k = "unit" -> 0 [] t.k = "dur" -> 12 [] t.k = "sys" -> 13
    [] t.k = "str" -> 8 + Sum(MapSeq(x[2], LAMBDA c : IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4))
    [] t.k = "opt" -> 1 + (IF x = None THEN 0 ELSE Size(t.t, x[2]))
    [] t.k \in {"seq", "set"} -> 8 + Sum(MapSeq(x[2], LAMBDA y : Size(t.t, y)))
    [] t.k = "map" -> 8 + Sum(MapSeq(x[2], LAMBDA p : Size(t.kt, p[1]) + Size(t.vt, p[2])))
    [] t.k = "arr" -> Sum(MapSeq(x[2], LAMBDA y : Size(t.t, y)))
    [] t.k = "tup" -> Sum([i \in 1..Len(t.ts) |-> Size(t.ts[i], x[2][i])])
    [] t.k = "tstruct" -> Sum([i \in 1..Len(t.ts) |-> Size(t.ws[i], IF t.px[i] = "" THEN x[2][i] ELSE Conv(t.px[i], x[2][i]))])
    [] t.k = "struct" -> SizeF(t.fs, x[2])
    [] t.k = "enum" -> LET w == t.vs[x[2] + 1] IN 2 + (IF w.k = "rec" THEN SizeF(w.fs, x[3]) ELSE Sum([i \in 1..Len(w.fs) |-> Size(w.fs[i], x[3][i])]))
    [] t.k = "proxy" -> Size(t.p, Conv(t.c, x))

Init == ph = "idle" /\ r = 0 /\ v = Unit /\ wire = <<>>
Choose == /\ ph = "idle" /\ r' \in RootsOf("b", Tags) /\ ph' = "typed" /\ UNCHANGED <<v, wire>>
Encode == /\ ph = "typed" /\ \E x \in Range(BinSamples(T, Pick(12, 40))) : v' = x /\ wire' = SerBin(T, x)
          /\ ph' = "sent" /\ UNCHANGED r
Decode == /\ ph = "sent" /\ DeBin(T, wire, 0)[1] = "ok" /\ v' = DeBin(T, wire, 0)[2] /\ ph' = "received" /\ UNCHANGED <<r, wire>>
Next == Choose \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars

IsBytes == \A i \in 1..Len(wire) : wire[i] \in 0..255
SizeLaw == ph = "sent" => Len(wire) = Size(T, v) /\ Len(wire) >= MinW(T)
\* the layout loses nothing: every encoded value is recovered, so no two values share bytes
Recovered == ph = "sent" => DeBin(T, wire, 0) = BOk(Norm("b", T, v), Len(wire), FALSE)
\* and decoding then encoding reproduces the bytes
Canonical == ph = "received" => SerBin(T, v) = wire
Observe ==
  CASE ph = "sent" /\ ~Loose(T, v) -> Emit(<<[o |-> "enc", t |-> r, v |-> v, b |-> wire]>>)
    [] ph = "received" -> Emit(<<[o |-> "dec", t |-> r, b |-> wire, x |-> <<"ok", v, Len(wire)>>]>>)
    [] OTHER -> TRUE
=============================================================================
