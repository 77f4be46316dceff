----------------------------- MODULE MC_Strings ------------------------------
(* An author spells a string piece by piece: characters, short escapes, \u    *)
(* code units, malformed escapes, then the closing quote or nothing.  What    *)
(* the pieces mean is tracked next to the spelling, a code unit at a time.    *)
EXTENDS TextFmt
VARIABLES ph, holder, lit, den, hi, flag, len
vars == <<ph, holder, lit, den, hi, flag, len>>
Holders == <<"String", "BTreeMap<String, u8>", "Vec<String>", "Plain", "Option<String>">>
Raws == <<97, 34 + 5, 47, 32, 48, 92 + 31, 127, 160, 233, 1791, 2047, 2048, 8232, 55295, 57344, 65279, 65535, 65536, 128512, 1114111>>
Ctrls == <<1, 8, 9, 10, 12, 13, 27, 31>>
Shorts == <<34, 92, 47, 98, 102, 110, 114, 116>>
Odd == <<113, 97, 120, 39, 10, 233, 128512, 85>>
Units == <<0, 1, 34, 65, 92, 127, 233, 4660, 8364, 43981, 55295, 55296, 55357, 56319, 56320, 56832, 57343, 57344, 65534, 65535>>
Broken == << C("\\u12G4"), C("\\uG"), C("\\u{1}"), C("\\u+041"), C("\\u12 4"), C("\\u/041"), C("\\u:041"), C("\\ug041"), C("\\u`041"), C("\\u@041"), C("\\u004"), C("\\u") >>
Init == ph = "idle" /\ holder = 1 /\ lit = <<>> /\ den = <<>> /\ hi = 0 /\ flag = "ok" /\ len = 0
\* one piece added: text, whether it interrupts a pending high surrogate is decided here
Add(txt, d, f) == /\ lit' = lit \o txt /\ len' = len + 1 /\ ph' = "open" /\ UNCHANGED holder
                  /\ IF hi # 0 THEN flag' = "bad" /\ den' = den /\ hi' = 0
                     ELSE den' = den \o d /\ flag' = (IF flag = "bad" \/ f = "bad" THEN "bad" ELSE IF flag = "soft" \/ f = "soft" THEN "soft" ELSE "ok") /\ hi' = 0
Depth == Pick(4, 6)
Thin(k, a) == len < 2 \/ Rnd(len + a, k, FoldLeft(LAMBDA x, y : (x * 31 + y) % 30011, 7, lit)) % Pick(IF Sparse THEN 61 ELSE 23, 7) = 0
Raw == \E k \in 1..Len(Raws) : Thin(k, 1) /\ Add(<<Raws[k]>>, <<Raws[k]>>, "ok")
Ctrl == \E k \in 1..Len(Ctrls) : Thin(k, 2) /\ Add(<<Ctrls[k]>>, <<Ctrls[k]>>, IF IsJson THEN "soft" ELSE "ok")
ShortE == \E k \in 1..Len(Shorts) : Thin(k, 3) /\ Add(<<92, Shorts[k]>>, <<CASE Shorts[k] = 98 -> 8 [] Shorts[k] = 102 -> 12 [] Shorts[k] = 110 -> 10 [] Shorts[k] = 114 -> 13 [] Shorts[k] = 116 -> 9 [] OTHER -> Shorts[k]>>, "ok")
ZeroE == Thin(1, 4) /\ Add(<<92, 48>>, <<0>>, IF IsJson THEN "soft" ELSE "ok")
OddE == \E k \in 1..Len(Odd) : Thin(k, 5) /\ Add(<<92, Odd[k]>>, <<Odd[k]>>, "soft")
\* a code unit: a scalar, the first half of a pair, or the second half completing one
UnitTxt(u, up) == <<92, 117>> \o (IF up THEN Up(Hex4(u)) ELSE Hex4(u))
UnitE == \E k \in 1..Len(Units) : LET u == Units[k] IN
   /\ Thin(k, 6)
   /\ IF u >= 55296 /\ u <= 56319
      THEN IF hi # 0 THEN Add(UnitTxt(u, TRUE), <<>>, "bad")
           ELSE lit' = lit \o UnitTxt(u, len % 2 = 0) /\ len' = len + 1 /\ ph' = "open" /\ hi' = u /\ UNCHANGED <<holder, den, flag>>
      ELSE IF u >= 56320 /\ u <= 57343
      THEN IF hi = 0 THEN Add(UnitTxt(u, FALSE), <<>>, "bad")
           ELSE lit' = lit \o UnitTxt(u, len % 2 = 1) /\ len' = len + 1 /\ ph' = "open" /\ hi' = 0 /\ den' = Append(den, 65536 + (hi - 55296) * 1024 + (u - 56320)) /\ UNCHANGED <<holder, flag>>
      ELSE Add(UnitTxt(u, k % 2 = 0), <<u>>, "ok")
Break == \E k \in 1..Len(Broken) : (len < 1 \/ Thin(k, 7)) /\ (k <= 10) /\ Add(Broken[k], <<>>, "bad")
Grow == ph \in {"idle", "open"} /\ len < Depth /\ (Raw \/ Ctrl \/ ShortE \/ ZeroE \/ OddE \/ UnitE \/ Break)
Close == /\ ph \in {"idle", "open"} /\ holder' \in 1..(IF len <= 1 \/ Thorough THEN Len(Holders) ELSE 1) /\ ph' = "closed"
         /\ flag' = (IF hi # 0 THEN "bad" ELSE flag) /\ UNCHANGED <<lit, den, hi, len>>
\* the text just ends, perhaps inside an escape
Tails == << <<>>, <<92>>, C("\\u"), C("\\u00"), C("\\ud83d"), C("\\ud83d\\u"), C("\\ud83d\\ude0") >>
Stop == /\ ph = "open" /\ (len <= 1 \/ (len = 2 /\ (Thorough \/ Rnd(len, 9, FoldLeft(LAMBDA x, y : (x * 31 + y) % 30011, 7, lit)) % 9 = 0))) /\ \E k \in 1..Len(Tails) : lit' = lit \o Tails[k] /\ ph' = "cut" /\ flag' = "bad" /\ holder' = 1 /\ UNCHANGED <<den, hi, len>>
\* and every character there is, by itself and escaped, a block at a time
Block == /\ ph = "idle" /\ \E b \in 0..271 : len' = b /\ ph' = "block" /\ UNCHANGED <<holder, lit, den, hi, flag>>
Next == Grow \/ Close \/ Stop \/ Block
Spec == Init /\ [][Next]_vars

Ty == Roots[RootIx(Holders[holder])].t
Q(s) == <<34>> \o s \o <<34>>
Around(s) ==
  CASE holder \in {1, 5} -> s
    [] holder = 2 -> C("{") \o s \o C(":1}")
    [] holder = 3 -> C("[\"\",") \o s \o C(",\"z\"]")
    [] holder = 4 -> IF IsJson THEN C("{\"a\":1,\"b\":") \o s \o C(",\"c\":2}") ELSE C("(a:1,b:") \o s \o C(",c:2)")
Value(d) ==
  LET s == <<"str", d>> I(n) == <<"int", n>> IN
  CASE holder = 1 -> s [] holder = 5 -> Some(s)
    [] holder = 2 -> <<"map", << <<s, I(<<49>>)>> >>>>
    [] holder = 3 -> <<"seq", <<<<"str", <<>>>>, s, <<"str", <<122>>>>>>>>
    [] holder = 4 -> <<"rec", <<I(<<49>>), s, I(<<50>>)>>>>
Text_ == IF ph = "cut" THEN Around(<<34>> \o lit) ELSE Around(Q(lit))
Expect_ == IF flag = "bad" THEN <<"err", "parse">> ELSE IF flag = "soft" THEN <<"okerr", Value(den)>> ELSE <<"ok", Value(den)>>
\* the escape machine of the decoder and the code units say the same
Denotes == ph \in {"closed", "cut"} =>
  LET d == FDecode(Ty, Text_) IN
  IF flag = "bad" THEN d[1] = "err" ELSE d[1] = (IF flag = "soft" THEN "okerr" ELSE "ok") /\ d[2] = Value(den)
\* nothing but scalar values is ever denoted
Scalars == \A k \in 1..Len(den) : IsScalar(den[k])
\* whatever is denoted survives being written and read
Survives == ph = "closed" /\ flag # "bad" => FDecode(Ty, FText(Ty, Value(den)))= <<"ok", Value(den)>>
\* the scalar values from a to b: as they are, without NUL, with a backslash where one is needed, all as \u; the harness
\* expands <<"rng", a, b, how>> to the same
Scalars_(a, b, how) == LET cs == SelectSeq([k \in 1..(b - a + 1) |-> a + k - 1] \o <<>>, LAMBDA c : IsScalar(c)) IN
  IF how = "raw" THEN cs
  ELSE Flat(MapSeq(cs, LAMBDA c : IF how = "esc" THEN UEsc(c, c % 2 = 0) ELSE IF c = 0 THEN <<32>> ELSE IF how = "quo" /\ c \in {34, 92} THEN <<92, c>> ELSE <<c>>))
Rng(a, b, how) == <<<<"rng", a, b, how>>>>
First_ == len * 4096
Last_ == First_ + 4095
\* what is expected of a whole block, shown on a few characters of it
BlockMeans == ph = "block" => \A k \in {0, 1 + (Rnd(len, 1, 1) % 4000)} :
  LET a == First_ + k b == a + 7 D(how) == FDecode(Roots[RootIx("String")].t, Q(Scalars_(a, b, how))) IN
  /\ D("esc") = <<"ok", <<"str", Scalars_(a, b, "raw")>>>>
  /\ D("quo")[2] = <<"str", Scalars_(a, b, "nul")>> /\ (D("quo")[1] = "ok" \/ (IsJson /\ a < 32))
  /\ FDecode(Roots[RootIx("String")].t, FText(Roots[RootIx("String")].t, <<"str", Scalars_(a, b, "raw")>>)) = <<"ok", <<"str", Scalars_(a, b, "raw")>>>>
Observe ==
  CASE ph \in {"closed", "cut"} ->
       Emit(<<[o |-> "dec", t |-> RootIx(Holders[holder]), s |-> Text_, x |-> Expect_]>>
         \o (IF flag = "ok" /\ ph = "closed" THEN <<[o |-> "rt", t |-> RootIx(Holders[holder]), v |-> Value(den), x |-> Value(den), rec |-> 1]>> ELSE <<>>))
    [] ph = "block" ->
       LET t == RootIx("String") raw == <<"str", Rng(First_, Last_, "raw")>> IN
       Emit(<<[o |-> "rt", t |-> t, v |-> raw, x |-> raw],
              [o |-> "dec", t |-> t, s |-> Q(Rng(First_, Last_, "esc")), x |-> <<"ok", raw>>],
              [o |-> "dec", t |-> t, s |-> Q(Rng(First_, Last_, "quo")), x |-> <<IF len = 0 /\ IsJson THEN "okerr" ELSE "ok", <<"str", Rng(First_, Last_, "nul")>>>>]>>)
    [] OTHER -> TRUE
=============================================================================
