------------------------------- MODULE MC_Floats ------------------------------
(* A float is built from its bits: sign, significand and binary exponent give *)
(* an exact decimal, computed digit by digit.  From there a writer may stay   *)
(* on it, go half way to the next float, or stop just short of or just past   *)
(* the middle, and spell that decimal in several ways; the reader has to come *)
(* back with the bits of the nearest float, ties to even.                     *)
EXTENDS TextFmt
VARIABLES ph, place, neg, frac, ex, near, how, doc
vars == <<ph, place, neg, frac, ex, near, how, doc>>

(* ------------------------------ big numbers ------------------------------ *)
RECURSIVE Times(_, _, _, _)
Times(d, b, step, n) == IF n = 0 THEN d ELSE IF n >= step[1] THEN Times(MulAdd(d, step[2], 0), b, step, n - step[1]) ELSE Times(MulAdd(d, b, 0), b, step, n - 1)
By2(d, n) == Times(d, 2, <<24, 16777216>>, n)
By5(d, n) == Times(d, 5, <<11, 48828125>>, n)
RECURSIVE DecMag(_)
DecMag(d) == LET h == Len(d) IN IF d[h] > 48 THEN [d EXCEPT ![h] = @ - 1] ELSE Append(DecMag(Take(d, h - 1)), 57)
AddD(x, y) == \* sum of two digit strings
  LET n == IF Len(x) < Len(y) THEN Len(y) ELSE Len(x)
      p == Rep(48, n - Len(x)) \o x
      q == Rep(48, n - Len(y)) \o y
      r == FoldLeft(LAMBDA acc, j : LET i == n + 1 - j z == (p[i] - 48) + (q[i] - 48) + acc[2] IN <<<<48 + (z % 10)>> \o acc[1], z \div 10>>, <<<<>>, 0>>, [j \in 1..n |-> j] \o <<>>)
  IN (IF r[2] > 0 THEN <<48 + r[2]>> ELSE <<>>) \o r[1]

(* ------------------------------- the formats ------------------------------ *)
Bytes_(p) == IF p[2] = 1 THEN 4 ELSE 8     \* place = <<root, which float it holds>>
MantBits(b) == IF b = 4 THEN 23 ELSE 52
Low(b) == IF b = 4 THEN -149 ELSE -1074    \* exponent of the last place of the smallest normal numbers
Pow2(k) == By2(<<49>>, k)
\* significands after the leading bit: the ends, the middle, and patterns between
Fracs(b) == LET q == MantBits(b) IN
  <<<<48>>, <<49>>, <<50>>, DecMag(Pow2(q)), DecMag(DecMag(Pow2(q))), Pow2(q - 1), MulAdd(Pow2(q - 2), 2, 1), DecMag(Pow2(q - 1)),
    IF b = 4 THEN C("2796202") ELSE C("1501199875790165"), IF b = 4 THEN C("5592405") ELSE C("3002399751580330"),
    IF b = 4 THEN C("1234567") ELSE C("1234567890123457"), IF b = 4 THEN C("8388607") ELSE C("4503599627370494"), IF b = 4 THEN C("4823449") ELSE C("2570638124657663")>>
\* exponents e stand for a last place worth 2^e; 0 in the subnormal row of the exponent field is told by frac only
Exps(b) == IF b = 4 THEN {0, 1, 2, -1, -2, -22, -23, -24, -25, -30, -50, -100, -126, -148, 3, 7, 8, 9, 10, 20, 30, 40, 41, 60, 100, 103, 104}
           ELSE {0, 1, 2, -1, -2, -10, -40, -51, -52, -53, -54, -55, -60, -80, -105, 3, 4, 9, 10, 11, 12, 13, 20, 40, 60, 100} \cup Pick({}, {-200, -400, -1000, -1073, 300, 600, 900, 970, 971})
Init == ph = "idle" /\ place = <<0, 0>> /\ neg = FALSE /\ frac = <<48>> /\ ex = <<0, FALSE>> /\ near = "exact" /\ how = <<-1, 0>> /\ doc = <<>>
Places == { <<RootIx("f64"), 2>>, <<RootIx("f32"), 1>>, <<RootIx("Vec<f64>"), 2>>, <<RootIx("[f32; 2]"), 1>>, <<RootIx("AllPrim"), 1>>, <<RootIx("AllPrim"), 2>>,
            <<RootIx("BTreeMap<i16, f64>"), 2>>, <<RootIx("([u8; 2], bool, f64)"), 2>> }
Settle == ph = "idle" /\ place' \in Places /\ ph' = "placed" /\ UNCHANGED <<neg, frac, ex, near, how, doc>>
b_ == Bytes_(place)
Alone == Roots[place[1]].n \in {"f32", "f64"}
Mantissa == /\ ph = "placed" /\ \E i \in 1..Len(Fracs(b_)) : (Alone \/ Thorough \/ i \in {1, 4, 9, 11}) /\ frac' = Fracs(b_)[i]
            /\ ph' = "shaped" /\ UNCHANGED <<place, neg, ex, near, how, doc>>
\* <<e, subnormal>>
Scale == /\ ph = "shaped" /\ ex' \in {<<e, FALSE>> : e \in IF Alone \/ Thorough THEN Exps(b_) ELSE {0, 1, -1, 11, -30, -60}} \cup (IF (b_ = 4 \/ (Thorough /\ frac \in {<<48>>, <<49>>})) THEN {<<Low(b_), TRUE>>} ELSE {})
         /\ neg' \in (IF Len(frac) > 2 /\ frac[Len(frac)] % 3 # 0 /\ ~Thorough THEN {FALSE} ELSE BOOLEAN)
         /\ ph' = "scaled" /\ UNCHANGED <<place, frac, near, how, doc>>
Sub_ == ex[2]
Top == frac = DecMag(Pow2(MantBits(b_))) /\ ex[1] = (IF b_ = 4 THEN 104 ELSE 971)
Stand == /\ ph = "scaled" /\ near' \in (IF Top THEN {"exact", "quarter"} ELSE {"exact", "quarter", "below", "mid", "above"}) /\ ph' = "stood" /\ UNCHANGED <<place, neg, frac, ex, how, doc>>
\* how: <<digits after the point, or -1 for a positional spelling, exponent style>>; -2 as an integer where it is one
NH == Pick(3, 9)
Hows == {<<-1, 0>>, <<-2, 0>>} \cup {<<IF k = 1 THEN 0 ELSE IF k = 2 THEN 1 ELSE Rnd(Len(frac) * 7 + frac[Len(frac)], (ex[1] + 2000) * 5 + k, 3) % 30, Rnd(frac[1], ex[1] + 2000, k) % 4>> : k \in 1..NH}

(* ----------------------- exact decimals: <<digits, exponent>> ------------- *)
Hidden == IF Sub_ THEN frac ELSE AddD(Pow2(MantBits(b_)), frac)
Scaled(m, e) == IF e >= 0 THEN <<By2(m, e), 0>> ELSE <<By5(m, -e), e>>
Exact == Scaled(Hidden, ex[1])
Mid == Scaled(MulAdd(Hidden, 2, 1), ex[1] - 1)
\* a decimal a little further: between the float and the middle of the gap
Quarter == Scaled(MulAdd(Hidden, 4, 1), ex[1] - 2)
Shy(x) == <<DecMag(x[1]) \o <<57, 57>>, x[2] - 2>>
Past(x) == <<x[1] \o <<48, 49>>, x[2] - 2>>
Decimal == CASE near = "exact" -> Exact [] near = "quarter" -> Quarter [] near = "mid" -> Mid [] near = "below" -> Shy(Mid) [] near = "above" -> Past(Mid)

(* --------------------------------- the bits ------------------------------- *)
Field == IF Sub_ THEN 0 ELSE ex[1] - Low(b_) + 1
ThisBits == IF b_ = 4 THEN LET f == LEBytes(frac, 3) IN <<f[1], f[2], f[3] + 128 * (Field % 2), (Field \div 2) + (IF neg THEN 128 ELSE 0)>>
            ELSE LET f == LEBytes(frac, 7) IN <<f[1], f[2], f[3], f[4], f[5], f[6], f[7] + 16 * (Field % 16), (Field \div 16) + (IF neg THEN 128 ELSE 0)>>
RECURSIVE IncLE(_)
IncLE(x) == IF x[1] < 255 THEN <<x[1] + 1>> \o Tail(x) ELSE <<0>> \o IncLE(Tail(x))
Odd == frac[Len(frac)] % 2 = 1
Bits == IF near = "above" \/ (near = "mid" /\ Odd) THEN IncLE(ThisBits) ELSE ThisBits

(* ------------------------------- the spelling ----------------------------- *)
Sign == IF neg THEN <<45>> ELSE <<>>
Positional(x) ==
  LET D == StripZ(x[1]) n == -x[2] IN
  IF n <= 0 THEN D \o Rep(48, -n) \o C(".0")
  ELSE IF Len(D) > n THEN Take(D, Len(D) - n) \o <<46>> \o Drop(D, Len(D) - n) ELSE <<48, 46>> \o Rep(48, n - Len(D)) \o D
Integer(x) == StripZ(x[1])
\* as an integer, where the middle of the gap is one and has integers on both sides
IsInteger(x) == x[2] = 0 /\ (near = "quarter" => ex[1] >= 2) /\ (near \in {"below", "mid", "above"} => ex[1] >= 3)
AsWhole == CASE near = "below" -> <<DecMag(Mid[1]), 0>> [] near = "above" -> <<AddD(Mid[1], <<49>>), 0>> [] OTHER -> Decimal
FitsWord(x) == IF neg THEN DigLe(x[1], C("9223372036854775808")) ELSE DigLe(x[1], C("18446744073709551615"))
Lexeme(x, w) == IF w[1] = -2 THEN Sign \o Integer(x) ELSE IF w[1] = -1 THEN Sign \o Positional(x) ELSE FloatSpell(Sign \o x[1] \o <<101>> \o Dec(x[2]), w[1], w[2])

F(x) == <<"flt", x>>
One == F(C("1.5"))
Put(x) ==
  LET nm == Roots[place[1]].n IN
  CASE nm \in {"f32", "f64"} -> x
    [] nm = "Vec<f64>" -> <<"seq", <<One, x, One>>>>
    [] nm = "[f32; 2]" -> <<"seq", <<One, x>>>>
    [] nm = "BTreeMap<i16, f64>" -> <<"map", << <<<<"int", <<55>>>>, x>> >>>>
    [] nm = "([u8; 2], bool, f64)" -> <<"tup", <<<<"seq", <<<<"int", <<49>>>>, <<"int", <<50>>>>>>>>, <<"bool", 1>>, x>>>>
    [] nm = "AllPrim" -> LET s == Samples(Roots[place[1]].t, 1)[1] t == Res(Roots[place[1]].t)
                              k == CHOOSE i \in 1..Len(t.fs) : t.fs[i].t.k = "flt" /\ t.fs[i].t.b = b_ IN <<"rec", [s[2] EXCEPT ![k] = x]>>
\* the text, what it denotes and what the format's reader makes of it
Write == /\ ph = "stood" /\ how' \in Hows /\ ph' = "written" /\ UNCHANGED <<place, neg, frac, ex, near>>
         /\ (how'[1] = -2 => IsInteger(IF near \in {"below", "above"} THEN Mid ELSE Decimal) /\ FitsWord(AsWhole))
         /\ doc' = LET x == IF how'[1] = -2 THEN AsWhole ELSE Decimal l == Lexeme(x, how') IN [lex |-> l, txt |-> FText(Roots[place[1]].t, Put(F(l))), val |-> NumVal(Sign \o x[1] \o <<101>> \o Dec(x[2]))]
Next == Settle \/ Mantissa \/ Scale \/ Stand \/ Write
Spec == Init /\ [][Next]_vars

\* the reader finds the number as spelled, and the spelling denotes the decimal meant
Rule == ph = "written" => FDecode(Roots[place[1]].t, doc.txt) = <<"ok", Put(F(doc.lex))>> /\ NumVal(doc.lex) = doc.val
\* the decimal lies where it should: between the float and its neighbour, on the right side of the middle
Le(x, y) == \* x <= y as decimals
  LET e == IF x[2] < y[2] THEN x[2] ELSE y[2]
  IN DigLe(StripZ(x[1] \o Rep(48, x[2] - e)), StripZ(y[1] \o Rep(48, y[2] - e)))
Next_ == Scaled(MulAdd(Hidden, 1, 1), ex[1])
Placed == ph = "stood" =>
  \A x \in {Decimal, IF ex[1] >= 3 THEN AsWhole ELSE Decimal} :
  /\ Le(Exact, x) /\ ~Le(Next_, x)
  /\ CASE near \in {"exact", "quarter", "below"} -> ~Le(Mid, x) [] near = "above" -> ~Le(x, Mid) [] OTHER -> Le(Mid, x) /\ Le(x, Mid)
\* bits grow with the number
Monotone == ph = "stood" => IncLE(ThisBits) # ThisBits /\ (near = "mid" => Bits[1] % 2 = 0)
FB(x) == <<"fltb", x>>
Observe == ph = "written" =>
  Emit(<<[o |-> "dec", t |-> place[1], s |-> doc.txt, x |-> <<"ok", Put(FB(Bits))>>]>>
       \o (IF how[1] = -1 THEN <<[o |-> "rt", t |-> place[1], v |-> Put(FB(Bits)), x |-> Put(FB(Bits))]>> ELSE <<>>))
=============================================================================
