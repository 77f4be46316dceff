------------------------------- MODULE MC_Total -------------------------------
(* An adversary edits documents:      token by token (drop, double, swap,     *)
(* replace, insert), character by character, by cutting them short, and by    *)
(* pumping one part of them to a great length.  With VERIF_LOC=1 the          *)
(* documents are laid out over lines with comments and other characters       *)
(* between the tokens, and the errors are what is compared.                   *)
EXTENDS TextFmt
VARIABLES ph, r, toks, text, how
vars == <<ph, r, toks, text, how>>
T == Roots[r].t
N(x) == IF Sparse THEN Pick((x + 2) \div 3, x * 2) ELSE Pick(x, x * 10)
Big == IF Thorough THEN 1000000 ELSE 200000
A(s) == <<0, C(s)>>
R(s) == <<Big, C(s)>>
Q == <<0, <<34>>>>
LnR == <<Big, <<10>>>>
\* <<type, parts, verdict>>
P0 == A("{\"a\":1,\"b\":\"x\",\"c\":2")
JPumps == <<
  <<"Plain", <<P0, A(",\"u\":"), R("["), R("]"), A("}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":"), R("{\"k\":"), A("1"), R("}"), A("}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":"), R("[{\"k\":["), A("1"), R("]}]"), A("}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":"), R("["), A("}")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":"), R("["), A("]}")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":"), R("{\"k\":")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":["), R("1,"), A("1]}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":\""), R("x"), A("\"}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":\""), R("\\u0041"), A("\"}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":\""), R("\\"), A("\\")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":\""), R("x")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":"), R("9"), A("}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":0."), R("1"), A("e5}")>>, "isok">>,
  <<"Plain", <<P0, A(",\"u\":1e"), R("9"), A("}")>>, "isok">>,
  <<"Plain", <<P0, R(",\"u\":1"), A("}")>>, "isok">>,
  <<"Plain", <<P0, R(",\"a\":7"), A("}")>>, "isok">>,
  <<"Plain", <<R("/* c */"), P0, A("}")>>, "isok">>,
  <<"Plain", <<P0, R("/**/"), A("}")>>, "isok">>,
  <<"Plain", <<P0, A("/*"), R("*"), A("/}")>>, "isok">>,
  <<"Plain", <<P0, A("/*"), R("*")>>, "err">>,
  <<"Plain", <<P0, <<Big, C("//x") \o <<10>>>>, A("}")>>, "isok">>,
  <<"Plain", <<P0, R(" "), A("}")>>, "isok">>,
  <<"Plain", <<P0, R(",")>>, "err">>,
  <<"Plain", <<R("{\"a\":")>>, "err">>,
  <<"Plain", <<R("[")>>, "err">>,
  <<"Plain", <<R("x")>>, "err">>,
  <<"u8", <<R("0"), A("1")>>, "any">>,
  <<"u8", <<R("1")>>, "err">>,
  <<"u8", <<A("-"), R("1")>>, "err">>,
  <<"f64", <<R("1")>>, "isok">>,
  <<"f64", <<A("1."), R("0"), A("1")>>, "isok">>,
  <<"bool", <<R("true")>>, "err">>,
  <<"String", <<Q, R("a"), Q>>, "isok">>,
  <<"String", <<Q, R("\\n"), Q>>, "isok">>,
  <<"Vec<u8>", <<A("["), R("1,"), A("2]")>>, "isok">>,
  <<"Vec<u8>", <<A("["), R("1,")>>, "err">>,
  <<"Vec<Vec<u16>>", <<A("["), R("[],"), A("[]]")>>, "isok">>,
  <<"Vec<Vec<u16>>", <<R("[")>>, "err">>,
  <<"BTreeMap<String, u8>", <<A("{"), R("\"a\":1,"), A("\"b\":2}")>>, "isok">>,
  <<"Mix", <<A("{\"R\":{\"a\":1,\"b\":\"\",\"u\":"), R("["), R("]"), A("}}")>>, "isok">>,
  <<"Uni", <<Q, R("A"), Q>>, "err">>,
  <<"Duration", <<A("{\"secs\":99999999999999999999"), R("9"), A("}")>>, "err">>,
  <<"Plain", <<LnR, P0, A(",,}")>>, "err">>,
  <<"Plain", <<A("{"), LnR, A("\"a\" 1")>>, "err">>,
  <<"Plain", <<A("{\"a\":1,"), <<Big, C("//x") \o <<10>>>>, A("  @")>>, "err">>,
  <<"Plain", <<A("/*"), <<Big, <<10, 233>>>>, A("*/ {]")>>, "err">>,
  <<"Plain", <<<<Big, C("/*") \o <<10>> \o C("*/")>>, A("{\"a\":300")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":["), <<Big, C("1,") \o <<10, 32>>>>, A("2],\"c\":}")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":\""), <<Big, <<233, 128512>>>>, A("\",,")>>, "err">>,
  <<"Plain", <<P0, A(",\"u\":\""), <<Big, <<97, 10, 98>>>>, A("\",,")>>, "err">>,
  <<"Plain", <<<<Big, <<13, 10, 9>>>>, A("{\"a\":true}")>>, "err">>,
  <<"Plain", <<P0, <<Big, C(",") \o <<10>> \o C("\"u\":1")>>, A(",\"b\":5}")>>, "err">>,
  <<"Plain", <<R(" "), A("{\"a\":1}")>>, "err">>,
  <<"Vec<u8>", <<A("["), <<Big, C("1,") \o <<10>>>>, A("256]")>>, "err">>,
  <<"Vec<String>", <<A("["), <<Big, C("\"\\u00e9\",") \o <<10, 32>>>>, A("7]")>>, "err">>,
  <<"Option<u8>", <<R("null")>>, "err">> >>

R0 == A("(a:1,b:\"x\",c:2,")
RPumps == <<
  <<"Plain", <<A("("), R("a:7,"), A("b:\"x\",c:2)")>>, "isok">>,
  <<"Plain", <<R0, R("["), R("]"), A(")")>>, "err">>,
  <<"Plain", <<R0, A("u:"), R("["), R("]"), A(")")>>, "err">>,
  <<"Plain", <<R0, R(" "), A(")")>>, "isok">>,
  <<"Plain", <<R0, R("/**/"), A(")")>>, "isok">>,
  <<"Plain", <<R("/* c */"), R0, A(")")>>, "isok">>,
  <<"Plain", <<R0, A("/*"), R("*"), A("/)")>>, "isok">>,
  <<"Plain", <<R0, A("/*"), R("*")>>, "err">>,
  <<"Plain", <<R0, <<Big, C("//x") \o <<10>>>>, A(")")>>, "isok">>,
  <<"Plain", <<R0, R(",")>>, "err">>,
  <<"Plain", <<R("(")>>, "err">>,
  <<"Plain", <<R("(a:")>>, "err">>,
  <<"Plain", <<A("("), R("x"), A(":1)")>>, "err">>,
  <<"Plain", <<R("x")>>, "err">>,
  <<"Plain", <<R("'")>>, "err">>,
  <<"Plain", <<R("/")>>, "any">>,
  <<"u8", <<R("0"), A("1")>>, "any">>,
  <<"u8", <<R("1")>>, "err">>,
  <<"u8", <<A("-"), R("1")>>, "err">>,
  <<"u8", <<R(".")>>, "err">>,
  <<"f64", <<R("1"), A(".0")>>, "isok">>,
  <<"f64", <<A("1."), R("0"), A("1")>>, "isok">>,
  <<"f64", <<A("1.0e-"), R("0"), A("1")>>, "isok">>,
  <<"bool", <<R("true")>>, "err">>,
  <<"String", <<Q, R("a"), Q>>, "isok">>,
  <<"String", <<Q, R("\\n"), Q>>, "isok">>,
  <<"String", <<Q, R("\\\\"), Q>>, "isok">>,
  <<"String", <<Q, R("a")>>, "err">>,
  <<"String", <<Q, R("\\u0041"), Q>>, "isok">>,
  <<"Vec<u8>", <<A("["), R("1,"), A("2]")>>, "isok">>,
  <<"Vec<u8>", <<A("["), R("1,")>>, "err">>,
  <<"Vec<Vec<u16>>", <<A("["), R("[],"), A("[]]")>>, "isok">>,
  <<"Vec<Vec<u16>>", <<R("[")>>, "err">>,
  <<"BTreeMap<String, u8>", <<A("{"), R("\"a\":1,"), A("\"b\":2}")>>, "isok">>,
  <<"Uni", <<R("A")>>, "err">>,
  <<"Mix", <<A("T2(1,"), Q, R("x"), Q, A(")")>>, "isok">>,
  <<"Mix", <<R("T1(")>>, "err">>,
  <<"Duration", <<A("{\"secs\":99999999999999999999"), R("9"), A("}")>>, "err">>,
  <<"()", <<R("()")>>, "any">>,
  <<"[u8; 3]", <<A("("), R("1,")>>, "err">>,
  <<"Plain", <<LnR, R0, A(",)")>>, "err">>,
  <<"Plain", <<A("("), LnR, A("a 1")>>, "err">>,
  <<"Plain", <<A("(a:1,"), <<Big, C("//x") \o <<10>>>>, A("  @")>>, "err">>,
  <<"Plain", <<A("/*"), <<Big, <<10, 233>>>>, A("*/ (]")>>, "err">>,
  <<"Plain", <<<<Big, C("/*") \o <<10>> \o C("*/")>>, A("(a:300")>>, "err">>,
  <<"Plain", <<R0, <<Big, C("/*") \o <<10>> \o C("*/ ")>>, A("b:)")>>, "err">>,
  <<"Plain", <<A("(b:\""), <<Big, <<233, 128512>>>>, A("\",,")>>, "err">>,
  <<"Plain", <<A("(b:\""), <<Big, <<97, 10, 98>>>>, A("\",,")>>, "err">>,
  <<"Plain", <<<<Big, <<13, 10, 9>>>>, A("(a:true)")>>, "err">>,
  <<"Plain", <<A("("), <<Big, C("a:1,") \o <<10>>>>, A("b:5)")>>, "err">>,
  <<"Plain", <<R(" "), A("(a:1)")>>, "err">>,
  <<"Vec<u8>", <<A("["), <<Big, C("1,") \o <<10>>>>, A("256]")>>, "err">>,
  <<"Vec<String>", <<A("["), <<Big, C("\"\\u00e9\",") \o <<10, 32>>>>, A("7]")>>, "err">>,
  <<"Option<u8>", <<R("None")>>, "err">> >>
Pumps == IF IsJson THEN JPumps ELSE RPumps

Init == ph = "idle" /\ r = 0 /\ toks = <<>> /\ text = <<>> /\ how = <<>>
Choose == /\ ph = "idle" /\ r' \in FRoots /\ ph' = "typed" /\ UNCHANGED <<toks, text, how>>
Locate == IOEnv.VERIF_LOC = "1"
\* gaps are tokens of their own, so an edit may hit them too
Laid(ts, g) == IF ~Locate THEN ts ELSE Flat([k \in 1..Len(ts) |-> <<GapAt(g, k), ts[k]>>] \o <<>>)
Write == /\ ph = "typed" /\ \E x \in Range(Samples(T, N(3))) : toks' = Laid(FLeaves(FTree(T, x), 0, 0, 0), 11 + (Rnd(r, 1, 1) % 7)) /\ text' = Flat(toks')
         /\ ph' = "sent" /\ how' = <<"whole">> /\ UNCHANGED r
\* a struct written with a member it does not know, first or last
Strange == LET W(x) == [i \in 1..Len(x) |-> C(x[i])] \o <<>> IN
  << W(<<"[", "1", ",", "[", "{", "\"k\"", ":", "\"}\"", "}", "]", ",", "-2.5", "]">>), W(<<"{", "\"a\"", ":", "{", "\"b\"", ":", "[", "null", "]", "}", ",", "\"c\"", ":", "1", "}">>),
     W(<<"[", "true", "]">>), W(<<"{", "\"a\"", ":", "2", "}">>), W(<<"\"s\"">>), W(<<"[", "[", "]", ",", "{", "}", "]">>) >>
Padded == /\ IsJson /\ ph = "typed" /\ Res(T).k = "struct" /\ UNCHANGED r /\ ph' = "sent" /\ how' = <<"padded">>
          /\ \E own \in {FLeaves(FTree(T, Samples(T, 1)[1]), 0, 0, 0)} : \E k \in 1..Pick(2, Len(Strange)) :
             LET o == IF own # <<>> /\ own[1] = C("{") THEN 1 ELSE 0
                 none == o + 2 > Len(own)
                 mem == <<C("\"zz\""), C(":")>> \o Strange[1 + (Rnd(r, 5, k) % Len(Strange))] IN
             /\ o > 0
             /\ toks' = Laid(IF k % 2 = 1 THEN Take(own, o) \o mem \o (IF none THEN <<>> ELSE <<C(",")>>) \o Drop(own, o)
                             ELSE Take(own, Len(own) - 1) \o (IF none THEN <<>> ELSE <<C(",")>>) \o mem \o <<own[Len(own)]>>, 11 + (Rnd(r, 1, 1) % 7))
             /\ text' = Flat(toks')
\* tokens an attacker puts in
Pool == <<C("{"), C("}"), C("["), C("]"), C(","), C(":"), C("\"a\""), C("1"), C("-1"), C("1.5"), C("true"), C("null"), C("abc"), C("/"), C("-"), C("\""), C("256"), C("1e5"), C("/*"), C("'")>>
        \o (IF IsJson THEN <<>> ELSE <<C("("), C(")"), C("None"), C("'c'"), C("a"), C("U"), C("."), C(".5"), C("//"), C("_")>>)
Some_(i, k) == Pool[1 + (Rnd(r, i, k) % Len(Pool))]
TokEdit ==
  \E i \in Positions(Len(toks), N(14), 1) :
    \/ text' = Flat(Without(toks, i)) /\ how' = <<"drop", i>>
    \/ text' = Flat(Twice(toks, i)) /\ how' = <<"double", i>>
    \/ text' = Flat(Swapped(toks, i)) /\ how' = <<"swap", i>>
    \/ \E k \in 1..N(2) : text' = Flat([toks EXCEPT ![i] = Some_(i, k)]) /\ how' = <<"replace", i>>
    \/ \E k \in 1..N(2) : text' = Flat(Before(toks, i, Some_(i, k + 50))) /\ how' = <<"insert", i>>
Chars == <<34, 92, 123, 125, 91, 93, 44, 58, 47, 42, 45, 43, 46, 101, 48, 57, 117, 116, 110, 32, 10, 0, 233, 128512, 39, 40, 41, 127, 160>>
CharEdit ==
  \E i \in Positions(Len(text), N(8), 2) :
    \/ text' = Without(text, i) /\ how' = <<"cdrop", i>>
    \/ text' = [text EXCEPT ![i] = Chars[1 + (Rnd(r, i, 3) % Len(Chars))]] /\ how' = <<"creplace", i>>
    \/ text' = Before(text, i, Chars[1 + (Rnd(r, i, 4) % Len(Chars))]) /\ how' = <<"cinsert", i>>
Cut == \E i \in Positions(Len(text), N(14), 5) : text' = Take(text, i - 1) /\ how' = <<"cut", i>>
Attack == /\ ph = "sent" /\ (TokEdit \/ CharEdit \/ Cut) /\ ph' = "hit" /\ UNCHANGED <<r, toks>>
Again == /\ Thorough /\ ph = "hit" /\ how[1] \in {"drop", "swap", "cdrop"} /\ \E i \in Positions(Len(text), 2, 6) : text' = Without(text, i) /\ how' = <<"cdrop2", i>>
         /\ ph' = "hit2" /\ UNCHANGED <<r, toks>>
Pump == ph = "idle" /\ \E k \in 1..Len(Pumps) : how' = <<"pump", k>> /\ r' = RootIx(Pumps[k][1]) /\ ph' = "pumped" /\ UNCHANGED <<toks, text>>
Next == Choose \/ Write \/ Padded \/ Attack \/ Again \/ Pump
Spec == Init /\ [][Next]_vars

Out == FDecode(T, text)
\* every text has an outcome, with an error inside the text
Total == ph \in {"sent", "hit", "hit2"} =>
  LET d == Out IN d[1] \in {"ok", "okerr", "any"} \/ (d[1] = "err" /\ d[2] \in {"token", "key", "parse", "missing", "enum", "range", "any"} /\ d[3][1] <= Len(text) /\ d[3][2] <= Len(text))
WholeIsRead == ph = "sent" => Out[1] = "ok"
\* a truncated document is no document, unless what is left is a shorter number
Truncated == how # <<>> /\ how[1] = "cut" => Out[1] = "err" \/ Res(T).k \in {"int", "flt", "opt", "proxy"} \/ (IsJson /\ Res(T).k = "tstruct") \/ (~IsJson /\ Res(T).k = "enum")
\* accepted by the decoder without leniency implies the tokens form one value
Shaped == ph \in {"hit", "hit2"} => LET d == Out IN d[1] = "ok" => d[2] # <<>>
\* pumping does not change the verdict
PumpVerdict == ph = "pumped" =>
  \A k \in 1..3 : LET p == Pumps[how[2]]
                      d == FDecode(T, PumpSmall(p[2], k + 3)) IN
     p[3] = "any" \/ (p[3] = "err" <=> d[1] = "err")
\* where the reader stands: after everything it was given when that ran out, and never before the damage
LocLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
CutAtEnd == ph = "hit" /\ how[1] = "cut" => LET d == Out IN d[1] = "err" => d[3] = Loc(text, Len(text) + 1)
NotBefore == ph = "hit" /\ how[1] \in {"drop", "swap", "replace", "insert"} =>
  LET d == Out IN d[1] = "err" => LocLe(Loc(text, Len(Flat(Take(toks, how[2] - 1)))), d[3])
\* the place of an error in a pumped document grows with it line by line or column by column
PumpDec(k) == FDecode(T, PumpSmall(Pumps[how[2]][2], k))
PumpErr == LET a == PumpDec(40) b == PumpDec(41) IN
  <<"err", a[2], <<a[3][1] + (Big - 40) * (b[3][1] - a[3][1]), a[3][2] + (Big - 40) * (b[3][2] - a[3][2])>>, a[4]>>
PumpLinear == ph = "pumped" /\ Locate /\ Pumps[how[2]][3] = "err" =>
  LET a == PumpDec(40) b == PumpDec(41) c == PumpDec(43) IN
    a[2] = b[2] /\ a[2] = c[2] /\ c[3] = <<a[3][1] + 3 * (b[3][1] - a[3][1]), a[3][2] + 3 * (b[3][2] - a[3][2])>>
Observe ==
  CASE ph \in {"sent", "hit", "hit2"} /\ ~Locate -> Emit(<<[o |-> "dec", t |-> r, s |-> text, x |-> IF Out[1] = "err" THEN <<"err">> ELSE Out]>>)
    [] ph \in {"sent", "hit", "hit2"} /\ Locate -> Emit(IF Out[1] = "err" THEN <<[o |-> "dec", t |-> r, s |-> text, x |-> Out, l |-> 1]>> ELSE <<>>)
    [] ph = "pumped" /\ ~Locate -> Emit(<<[o |-> "dec", t |-> r, s |-> PumpText(Pumps[how[2]][2]), x |-> <<Pumps[how[2]][3]>>]>>)
    [] ph = "pumped" /\ Locate /\ Pumps[how[2]][3] = "err" -> Emit(<<[o |-> "dec", t |-> r, s |-> PumpText(Pumps[how[2]][2]), x |-> PumpErr, l |-> 3]>>)
    [] OTHER -> TRUE
=============================================================================
