-------------------------------- MODULE MC_Time --------------------------------
(* An author writes the members of a duration or time one after another; and  *)
(* a writer writes every combination of limits.                               *)
EXTENDS TextFmt
VARIABLES ph, kind, mem, v
vars == <<ph, kind, mem, v>>
\* values as written, and the integer they denote (<<>>: none that a duration has)
Raw_(s) == <<"raw", C(s)>>
Z(s) == <<Raw_(s), C(s)>>
Bad_(s) == <<Raw_(s), <<>>>>
SecsVals == << Z("0"), Z("1"), Z("18446744073709551615"), Z("18446744073709551614"), Z("9223372036854775807"), Z("9223372036854775808"), Z("4294967296"),
               Bad_("18446744073709551616"), Bad_("-1"), Bad_("1.5"), Bad_("1e3"), Bad_("\"1\""), Bad_("[1]"), Bad_("true"), Bad_("99999999999999999999999999") >>
NanosVals == << Z("0"), Z("1"), Z("999999999"), Z("1000000000"), Bad_("1000000001"), Bad_("1999999999"), Bad_("2000000000"), Bad_("4294967295"), Bad_("4294967296"), Bad_("5294967296"),
                Bad_("-1"), Bad_("0.5"), Bad_("\"1\""), Bad_("18446744073709551616") >>
OtherNames == << C("sec"), C("secss"), <<>>, C("Secs"), C("nano"), C("millis"), C("secs_since_epoch"), C("nanos ") >>
Init == ph = "idle" /\ kind = "" /\ mem = <<>> /\ v = Unit
Open == ph = "idle" /\ kind' \in {"Duration", "SystemTime"} /\ ph' = "open" /\ UNCHANGED <<mem, v>>
Seed_(a, b) == Rnd(Len(mem) * 977 + a, b, FoldLeft(LAMBDA x, m : (x * 31 + Len(m[3]) + m[1] * 7 + Len(m[2][2])) % 30011, 0, mem))
Chance(a, b) == Len(mem) < (IF Sparse THEN 1 ELSE 2) \/ Seed_(a, b) % Pick(9, 2) = 0
\* a member: <<1 secs | 2 nanos | 3 other, <<document, meaning>>, name>>
Member == \/ \E k \in 1..Len(SecsVals) : Chance(k, 1) /\ mem' = Append(mem, <<1, SecsVals[k], C("secs")>>)
          \/ \E k \in 1..Len(NanosVals) : Chance(k, 2) /\ mem' = Append(mem, <<2, NanosVals[k], C("nanos")>>)
          \/ \E k \in 1..Len(OtherNames) : (Len(mem) = 0 \/ Seed_(k, 3) % 4 = 0) /\ mem' = Append(mem, <<3, Z("5"), OtherNames[k]>>)
Add == ph = "open" /\ Len(mem) < 3 /\ Member /\ UNCHANGED <<ph, kind, v>>
Grid == {<<s, n>> : s \in {C("0"), C("1"), C("59"), C("2147483648"), C("4294967295"), C("4294967296"), C("9007199254740993"), C("9223372036854775806"), C("9223372036854775807"), C("9223372036854775808"), C("18446744073709551614"), C("18446744073709551615")},
                    n \in {C("0"), C("1"), C("999"), C("1000"), C("999999"), C("1000000"), C("123456789"), C("100000000"), C("500000000"), C("999999999")}}
Put == ph = "open" /\ mem = <<>> /\ ph' = "value" /\ UNCHANGED <<kind, mem>>
       /\ \E g \in Grid : (kind = "Duration" \/ IntLe(g[1], I64Max)) /\ v' = <<IF kind = "Duration" THEN "dur" ELSE "sys", g[1], g[2]>>
Next == Open \/ Add \/ Put
Spec == Init /\ [][Next]_vars
T == Roots[RootIx(kind)].t
Doc == <<"obj", MapSeq(mem, LAMBDA m : <<KeyD(m[3]), m[2][1]>>)>>
Text_ == FRender(Doc, 1 + (Len(mem) % 4), IF Len(mem) = 1 THEN 0 ELSE Len(mem[1][3]) % 3, 0, 0)
Of(k) == {i \in 1..Len(mem) : mem[i][1] = k}
\* exactly one secs, at most one nanos, nothing else, all of them in range; a full second of nanoseconds counts as one
Rule ==
  IF Of(3) # {} \/ Cardinality(Of(1)) # 1 \/ Cardinality(Of(2)) > 1 \/ (\E i \in 1..Len(mem) : mem[i][2][2] = <<>>) THEN <<"err">>
  ELSE LET s == mem[CHOOSE i \in Of(1) : TRUE][2][2]
           n == IF Of(2) = {} THEN <<48>> ELSE mem[CHOOSE i \in Of(2) : TRUE][2][2]
           whole == n = C("1000000000")
           s2 == IF whole THEN MulAdd(s, 1, 1) ELSE s IN
       IF ~IntLe(s2, IF kind = "Duration" THEN U64Max ELSE I64Max) THEN <<"err">>
       ELSE <<"ok", <<IF kind = "Duration" THEN "dur" ELSE "sys", s2, IF whole THEN <<48>> ELSE n>>>>
Written == ph = "open"
Exact == Written => LET d == FDecode(T, Text_) IN IF Rule[1] = "err" THEN d[1] = "err" ELSE d[1] \in {"ok", "okerr"} /\ d[2] = Rule[2]
RoundTrip == ph = "value" => FDecode(T, FText(T, v)) = <<"ok", v>>
Observe == CASE Written -> Emit(<<[o |-> "dec", t |-> RootIx(kind), s |-> Text_, l |-> 2, x |-> IF Rule[1] = "err" THEN FDecode(T, Text_) ELSE Rule]>>)
             [] ph = "value" -> Emit(<<[o |-> "rt", t |-> RootIx(kind), v |-> v, x |-> v, rec |-> 1]>>)
             [] OTHER -> TRUE
=============================================================================
