----------------------------- MODULE MC_TomlTotal -----------------------------
(* An adversary edits TOML documents token by token and character by          *)
(* character, cuts them short, leaves their last statement unfinished,        *)
(* redefines a key, or pumps one part of them to a great length.              *)
EXTENDS MC_Toml
Locate == IOEnv.VERIF_LOC = "1"
\* statements that are not finished, whatever came before
Half == << C("k ="), C("k"), C("k = # c"), C("k = [1, 2"), C("k = [1, 2,"), C("k = [[1], [2]"), C("k = ["), C("k = [\"a\", \"b"), C("k = \"abc"), C("k = \"abc\\"), C("k = \"abc\\\""), C("k = \"\\u00e"), C("k = \"\\UFFFFFFFF\""), C("k = \"\\uD800\""), C("k = \"\"\"abc"), C("k = \"\"\"abc\""), C("k = \"\"\"abc\"\""),
           C("k = \"\"\"abc\\"), C("k = \"\"\""), C("k = \"\"\"\""), C("k = \"\"\"\\\"\"\""), C("[t"), C("[t # ]"), C("[\"t"), C("[\"t\""), C("["), C("[]"), C("[[t"), C("[[t]"), C("[[t] # ]"), C("[[t]\"]\""), C("[["), C("[[]"), C("[[]]"), C("[t = 1"), C("[t]]"), C("[t],"), C("[[t]]]"),
           C("= 1"), C("= "), C("k = ="), C("k = ]"), C("k = ,"), C("k = [="), C("k = [1 = 2]"), C("k 1"), C("k,"), C("k = abc"), C("k = tru"), C("k = -"), C("k = +"), C("k = -x"), C("k = -nano"), C("k = +in"), C("k = 1x"), C("k = 0x"), C("k = 1.x"), C("k = ."), C("k = 9223372036854775808"), C("k = -9223372036854775809"),
           C("k = 99999999999999999999999999"), C("'k' = 1"), C("k = 'v'"), C("{"), C("k = {}"), C("k = @"), C("\"k\" \"l\" = 1"), C("k.\"l\" = 1"), C("k = [1, 2 # ]"), C("k = [1, 2") \o <<10>> \o C("l = 3"), C("k =") \o <<10>> \o C("l = 3"), C("k") \o <<10>> \o C("= "), C("k = ") \o <<0>>, C("[t") \o <<10>> \o C("]x") >>
Big == IF Thorough THEN 1000000 ELSE 200000
A(s) == <<0, C(s)>>
R(s) == <<Big, C(s)>>
L(n, s) == <<n, C(s)>>
Nl == <<0, <<10>>>>
Ln == <<Big, <<10>>>>
TPumps == << <<<<R("a"), A("=1")>>, "isok">>, <<<<A("a"), R(".a"), A("=1")>>, "isok">>, <<<<A("["), R("a."), A("b]")>>, "isok">>, <<<<A("a=\""), R("x"), A("\"")>>, "isok">>, <<<<A("a=\""), R("x")>>, "err">>,
   <<<<A("a=\""), R("\\u0041"), A("\"")>>, "isok">>, <<<<A("a=\"\"\""), R("x\""), A("\"\"\"")>>, "isok">>, <<<<A("a=\"\"\""), R("x\"\""), A("x\"\"\"")>>, "isok">>, <<<<A("a=\"\"\""), <<Big, <<92, 10, 32>>>>, A("\"\"\"")>>, "isok">>, <<<<R("\"")>>, "err">>,
   <<<<A("a=["), R("1,"), A("]")>>, "isok">>, <<<<A("a=["), R("[],"), A("]")>>, "isok">>, <<<<A("a=["), R("1,")>>, "err">>, <<<<R("[")>>, "err">>, <<<<R("]")>>, "err">>, <<<<A("a=["), R(","), A("]")>>, "any">>,
   <<<<A("a="), L(300, "["), L(300, "]")>>, "isok">>, <<<<A("a=["), L(300, "["), L(300, "]")>>, "err">>, <<<<A("a="), L(300, "[1,[2],"), L(300, "]")>>, "isok">>,
   <<<<<<Big, C("# x") \o <<10>>>>, A("a=1")>>, "isok">>, <<<<R("#")>>, "isok">>, <<<<R(" "), A("a=1")>>, "isok">>, <<<<<<Big, <<10>>>>, A("a=1")>>, "isok">>, <<<<A("a=[1"), <<Big, C("# ]") \o <<10>>>>, A("]")>>, "isok">>,
   <<<<A("a="), R("1")>>, "err">>, <<<<A("a=0."), R("1")>>, "isok">>, <<<<A("a="), R("0"), A("1")>>, "any">>, <<<<A("a="), R("1_")>>, "err">>, <<<<A("a=1-"), R("1-")>>, "any">>, <<<<A("a=-"), R("-")>>, "any">>, <<<<A("a="), R("+")>>, "err">>, <<<<R("-"), A("=1")>>, "isok">>,
   <<<<<<Big \div 10, C("[[t]]") \o <<10>>>>, A("a=1")>>, "isok">>, <<<<<<Big \div 10, C("[t]") \o <<10>>>>, A("a=1")>>, "isok">>, <<<<<<Big \div 10, C("[[t]]") \o <<10>> \o C("a=[1]") \o <<10>>>>>>, "isok">>, <<<<A("a=1"), <<Big, C(" ") \o <<10>> \o C("a=1")>>>>, "any">>, <<<<R("a=")>>, "err">>, <<<<R("[a]")>>, "any">>,
   <<<<Ln, A("a = x")>>, "err">>, <<<<Ln, A("  = 1")>>, "err">>, <<<<<<Big, C("# x") \o <<10>>>>, A("a = ]")>>, "err">>, <<<<R(" "), A("= 1")>>, "err">>, <<<<R("# x"), Nl, A("a =")>>, "err">>, <<<<A("a=\""), <<Big, <<233, 128512>>>>, A("\" b")>>, "err">>, <<<<A("a=["), <<Big, C("1,") \o <<10, 32>>>>, A("= 2]")>>, "err">>,
   <<<<A("a=\"\"\""), <<Big, <<97, 10>>>>, A("\"\"\" b")>>, "err">>, <<<<A("a=\"\"\""), <<Big, <<97, 92, 10, 32>>>>, A("\\uD800\"\"\"")>>, "err">>, <<<<<<Big, <<13, 10>>>>, A("a 1")>>, "err">>, <<<<<<Big \div 10, C("[t]") \o <<10>>>>, A("b ]")>>, "err">>, <<<<<<Big \div 10, C("[[t]]") \o <<10>> \o C("a=[1]") \o <<10>>>>, A("x\"")>>, "err">>, <<<<<<Big \div 10, C("a=1.5 # x") \o <<10>>>>, A("b=-")>>, "err">>, <<<<A("[["), R("t."), A("t]]x")>>, "err">> >>
\* token ends, for edits between tokens
RECURSIVE TEnds(_, _, _)
TEnds(t, p, acc) == LET k == TNext(t, p, FALSE) IN IF k[1] \in {"bad", "eof"} THEN acc ELSE TEnds(t, k[3], Append(acc, k[3] - 1))
Ends == <<0>> \o TEnds(text, 1, <<>>)
Pool == << C("["), C("]"), C("="), C(","), C("\""), C("\"\"\""), C("a"), C("1"), C("-"), C("+"), <<10>>, C("#"), C(" 1979-05-27 "), C("[["), C("]]"), C("."), C("\\"), C("'"), C("{"), C("true"), C("nan"), C("_"), C(" "), <<0>>, <<65279>>, <<128512>>, C("1.5"), C("\"\"") >>
Chars == << 34, 92, 91, 93, 44, 61, 35, 45, 43, 46, 101, 48, 57, 117, 116, 110, 32, 10, 13, 0, 233, 128512, 39, 123, 127, 160, 95, 58, 90, 85 >>
Pk(s, a, b) == s[1 + (Rnd(salt + Len(text), a, b) % Len(s))]
Few(q, t) == IF Sparse THEN 2 ELSE Pick(q, t)
TokEdit == LET e == Ends IN \E i \in Positions(Len(e) - 1, Few(12, 60), salt) :
  LET lo == e[i] hi == e[i + 1] IN
    \/ text' = Take(text, lo) \o Drop(text, hi)
    \/ text' = Take(text, hi) \o Drop(text, lo)
    \/ i + 2 <= Len(e) /\ text' = Take(text, lo) \o SubSeq(text, hi + 1, e[i + 2]) \o SubSeq(text, lo + 1, hi) \o Drop(text, e[i + 2])
    \/ \E k \in 1..Pick(2, 12) : text' = Take(text, lo) \o Pk(Pool, i, k) \o Drop(text, hi)
    \/ \E k \in 1..Pick(2, 12) : text' = Take(text, hi) \o Pk(Pool, i, k + 50) \o Drop(text, hi)
CharEdit == \E i \in Positions(Len(text), Few(8, 40), salt + 1) :
    \/ text' = Without(text, i)
    \/ text' = [text EXCEPT ![i] = Pk(Chars, i, 3)]
    \/ text' = Before(text, i, Pk(Chars, i, 4))
CutEdit == \E i \in Positions(Len(text), Few(12, 90), salt + 2) : text' = Take(text, i - 1)
Attack == ph = "doc" /\ (TokEdit \/ CharEdit \/ CutEdit) /\ ph' = "hit" /\ UNCHANGED <<doc, salt>>
\* whatever the statement before: an unfinished one, or one that redefines a plain key
Leave == ph \in {"idle", "doc"} /\ (Len(doc) < 2 \/ salt % 5 = 0) /\ \E k \in 1..Len(Half) : text' = text \o Half[k] /\ ph' = "half" /\ salt' = k /\ UNCHANGED doc
Plain == {FullKey(i) : i \in KVs(0)}
Redefine == ph = "doc" /\ \E k \in Plain : k # <<>> /\ (\A i \in 1..Len(k) : k[i] # 34 /\ k[i] # 92) /\ text' = text \o C("[[\"") \o k \o C("\"]]") \o <<10>> /\ ph' = "redef" /\ UNCHANGED <<doc, salt>>
Pump == ph = "idle" /\ \E k \in 1..Len(TPumps) : ph' = "pump" /\ doc' = <<k>> /\ UNCHANGED <<text, salt>>
\* the author of MC_Toml, for fewer documents
Some_ == Len(doc) < Pick(2, 3) /\ (Len(doc) = 0 \/ salt % Pick(IF Locate THEN 11 ELSE 3, 1) = 0) /\ Write
TNext_ == Some_ \/ Attack \/ Leave \/ Redefine \/ Pump
TSpec == Init /\ [][TNext_]_vars
Shot == {"doc", "hit", "half", "redef"}
Out == TParse(text)
Total == ph \in Shot => LET d == Out IN d[1] = "ok" \/ (d[1] = "err" /\ d[2] \in {"token", "parse"} /\ d[3][1] <= Len(text) /\ d[3][2] <= Len(text))
\* an unfinished statement is an error wherever it stands
Unfinished == ph \in {"half", "redef"} => Out[1] = "err"
\* pumping does not change the verdict
PumpVerdict == ph = "pump" => \A k \in 1..3 : LET p == TPumps[doc[1]] d == TParse(PumpSmall(p[1], k + 19)) IN p[2] = "any" \/ (p[2] = "err" <=> d[1] = "err")
\* the place of an error in a pumped document grows with it line by line or column by column
PumpDec(k) == TParse(PumpSmall(TPumps[doc[1]][1], k))
Times == LET ns == {p[1] : p \in Range(TPumps[doc[1]][1])} IN CHOOSE a \in ns : \A b \in ns : b <= a
Along(a, b, k) == <<a[3][1] + k * (b[3][1] - a[3][1]), a[3][2] + k * (b[3][2] - a[3][2])>>
PumpErr == LET a == PumpDec(40) b == PumpDec(41) IN <<"err", a[2], Along(a, b, Times - 40)>>
PumpLinear == ph = "pump" /\ Locate /\ TPumps[doc[1]][2] = "err" =>
  LET a == PumpDec(40) b == PumpDec(41) c == PumpDec(43) IN a[2] = b[2] /\ a[2] = c[2] /\ c[3] = Along(a, b, 3)
Hit == [o |-> "dec", s |-> text, l |-> IF Locate THEN 1 ELSE 0, x |-> IF Out[1] = "err" THEN Out ELSE IF ph = "doc" THEN Out ELSE <<"okerr", Out[2]>>]
TObserve ==
  CASE ph \in Shot -> Emit(IF Locate /\ Out[1] # "err" THEN <<>> ELSE <<Hit>>)
    [] ph = "pump" /\ ~Locate -> Emit(<<[o |-> "dec", s |-> PumpText(TPumps[doc[1]][1]), x |-> <<TPumps[doc[1]][2]>>]>>)
    [] ph = "pump" /\ Locate /\ TPumps[doc[1]][2] = "err" -> Emit(<<[o |-> "dec", s |-> PumpText(TPumps[doc[1]][1]), x |-> PumpErr, l |-> 1]>>)
    [] OTHER -> TRUE
=============================================================================
