------------------------------- MODULE MC_Ints -------------------------------
(* A number walks up and down across the bounds of every integer type and is  *)
(* handed to a decoder in some place under some spelling.                     *)
EXTENDS TextFmt
VARIABLES ph, num, place, lit, kind
vars == <<ph, num, place, lit, kind>>
\* arithmetic on decimals
RECURSIVE DecMag(_)
DecMag(d) == LET h == Len(d) IN IF d[h] > 48 THEN [d EXCEPT ![h] = @ - 1] ELSE Append(DecMag(Take(d, h - 1)), 57)
Up1(x) == IF IsNeg(x) THEN Canon(TRUE, DecMag(Mag(x))) ELSE MulAdd(x, 1, 1)
Down1(x) == IF x = <<48>> THEN C("-1") ELSE IF IsNeg(x) THEN Canon(TRUE, MulAdd(Mag(x), 1, 1)) ELSE StripZ(DecMag(x))
Ints == {i \in RootsOf(Fmt, {"int"}) : TRUE}
\* where walks start: all bounds, powers of two and ten near word sizes, and numbers no word holds
Pow2(k) == FoldLeft(LAMBDA a, x : MulAdd(a, 2, 0), <<49>>, Rep(0, k))
Pow10(k) == <<49>> \o Rep(48, k)
Mags == {Pow2(k) : k \in {0, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 53, 62, 63, 64, 65, 72, 96, 127, 128, 129}}
        \cup {Pow10(k) : k \in {1, 2, 3, 5, 9, 10, 18, 19, 20, 21, 38, 39, 60, 308, 309, 400}}
Starts == Mags \cup {Canon(TRUE, m) : m \in Mags}
\* places: a root by itself, or the n-th number of a larger document
Holders == { <<i, k>> : i \in {RootIx("AllPrim")}, k \in 1..9 }
           \cup {<<RootIx("Vec<u8>"), 1>>, <<RootIx("Vec<i64>"), 1>>, <<RootIx("Option<u8>"), 1>>, <<RootIx("BTreeMap<u8, String>"), 1>>, <<RootIx("(u8, u16, u32, String)"), 2>>, <<RootIx("[u8; 3]"), 2>>,
                 <<RootIx("New"), 1>>, <<RootIx("Mix"), 1>>, <<RootIx("BTreeMap<String, u8>"), 1>>, <<RootIx("Def"), 6>>, <<RootIx("CDefW"), 2>>}
\* the value put in a holder, with the walking number at the place
Put(h, x) ==
  LET nm == Roots[h[1]].n
      I(y) == <<"int", y>>
      z == I(<<49>>) IN
  CASE nm = "AllPrim" -> LET s == Samples(Roots[h[1]].t, 1)[1] IN <<"rec", [s[2] EXCEPT ![h[2]] = I(x)]>>
    [] nm \in {"Vec<u8>", "Vec<i64>"} -> <<"seq", <<z, I(x)>>>>
    [] nm = "Option<u8>" -> Some(I(x))
    [] nm = "BTreeMap<u8, String>" -> <<"map", << <<I(x), <<"str", <<97>>>>>> >>>>
    [] nm = "BTreeMap<String, u8>" -> <<"map", << <<<<"str", <<97>>>>, I(x)>> >>>>
    [] nm = "(u8, u16, u32, String)" -> <<"tup", <<z, I(x), z, <<"str", <<>>>>>>>>
    [] nm = "[u8; 3]" -> <<"seq", <<z, I(x), z>>>>
    [] nm = "New" -> <<"tup", <<I(x)>>>>
    [] nm = "Mix" -> <<"var", 1, <<I(x)>>>>
    [] nm = "Def" -> <<"rec", <<z, z, <<"str", <<>>>>, z, <<"seq", <<>>>>, I(x)>>>>
    [] nm = "CDefW" -> <<"rec", <<z, <<"seq", <<>>>>, I(x)>>>>
    [] OTHER -> I(x)
\* the integer type at the place
At_(h) ==
  LET t == Res(Roots[h[1]].t) nm == Roots[h[1]].n IN
  CASE nm = "AllPrim" -> t.fs[h[2]].t
    [] t.k \in {"seq", "opt", "arr"} -> t.t [] nm = "BTreeMap<u8, String>" -> t.kt [] nm = "BTreeMap<String, u8>" -> t.vt
    [] nm = "(u8, u16, u32, String)" -> t.ts[2] [] nm = "New" -> t.ts[1] [] nm = "Mix" -> t.vs[2].fs[1]
    [] nm = "Def" -> t.fs[6].t [] nm = "CDefW" -> t.fs[3].t [] OTHER -> t
Fits(x) == IntLe(At_(place).lo, x) /\ IntLe(x, At_(place).hi)

Init == ph = "idle" /\ num = <<48>> /\ place = <<0, 0>> /\ lit = <<>> /\ kind = 0
Pick_ == ph = "idle" /\ place' \in ({<<i, 0>> : i \in Ints} \cup {h \in Holders : Fmt \in Roots[h[1]].f}) /\ ph' = "placed" /\ UNCHANGED <<num, lit, kind>>
Start == ph = "placed" /\ num' \in Starts /\ ph' = "walking" /\ kind' = 0 /\ UNCHANGED <<place, lit>>
Walk == ph = "walking" /\ kind < (IF Sparse THEN 1 ELSE Pick(3, 8)) /\ kind' = kind + 1 /\ (num' = Up1(num) \/ num' = Down1(num)) /\ UNCHANGED <<ph, place, lit>>
Spelling(s) ==
  CASE s = 1 -> num
    [] s = 2 -> IF IsNeg(num) THEN <<45, 48>> \o Tail(num) ELSE <<48>> \o num      \* leading zero
    [] s = 3 -> IF IsNeg(num) THEN num ELSE <<43>> \o num                          \* plus sign
    [] s = 4 -> num \o <<46, 48>>                                                   \* 1.0 is no integer
    [] s = 5 -> num \o C("e0")
    [] s = 6 -> IF num = <<48>> THEN <<45, 48>> ELSE num                            \* -0
Write == ph = "walking" /\ \E s \in 1..(IF place[2] = 0 \/ Thorough THEN 6 ELSE 1) : (s = 1 \/ Spelling(s) # num) /\ lit' = Spelling(s) /\ kind' = s /\ ph' = "written" /\ UNCHANGED <<num, place>>
Next == Pick_ \/ Start \/ Walk \/ Write
Spec == Init /\ [][Next]_vars

Ty == Roots[place[1]].t
\* the same document with the literal spelled as chosen: the number is the only one marked
Mark == Put(place, lit)
Text_ == FText(Ty, Mark)
Expect_ ==
  IF kind \in {4, 5} THEN <<"err", "token">>
  ELSE IF ~Fits(num) THEN <<"err", "range">>
  ELSE IF kind = 1 THEN <<"ok", Put(place, num)>> ELSE <<"okerr", Put(place, num)>>
Rule == ph = "written" =>
  LET d == FDecode(Ty, Text_) IN
  /\ d[1] = "err" <=> (Expect_[1] = "err" \/ (kind = 6 /\ ~At_(place).sg))
  /\ d[1] # "err" => d[2] = Put(place, num)
\* the walk is arithmetic: neighbours are ordered and no two numbers share a spelling
Ordered == ph = "walking" => IntLe(num, Up1(num)) /\ ~IntLe(Up1(num), num) /\ Down1(Up1(num)) = num
Observe == ph = "written" =>
  Emit(<<[o |-> "dec", t |-> place[1], s |-> Text_, x |-> Expect_]>>
       \o (IF kind = 1 /\ Fits(num) THEN <<IF place[2] = 0 THEN [o |-> "rt", t |-> place[1], v |-> <<"int", num>>, x |-> <<"int", num>>, s |-> num]
                                            ELSE [o |-> "rt", t |-> place[1], v |-> Put(place, num), x |-> Put(place, num)]>> ELSE <<>>))
=============================================================================
