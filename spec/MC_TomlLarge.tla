---------------------------- MODULE MC_TomlLarge -----------------------------
(* TOML documents one part of which is repeated many times: keys, tables,     *)
(* arrays of tables, array items, string pieces, comments.  A pattern is      *)
(* written once, -1 standing for the digits of the repetition's number.       *)
EXTENDS Toml, Emit
VARIABLES ph, k, n
vars == <<ph, k, n>>
\* a text is a list of parts, a list of items likewise: <<"1", once>> or <<"*", repeated>>
Fix(x) == <<"1", x>>
Star(x) == <<"*", x>>
Plain(s) == <<Fix(s)>>
S(s) == <<"str", Plain(s)>>
Num(s) == <<"num", Plain(s)>>
Date(s) == <<"date", Plain(s)>>
Q(s) == <<34>> \o s \o <<34>>
Nl == <<10>>
\* a text with the number in it: N("k") is k100000, k100001 ..
N(s) == C(s) \o <<-1>>
L(s) == C(s) \o Nl
\* parts: <<once?, text>>
One(s) == <<TRUE, s>>
Rep_(s) == <<FALSE, s>>
\* pairs of a map; a repeated pair or item is <<"*", pattern>> in a list
PK(key, val) == <<key, val>>
P(key, val) == <<Plain(key), val>>
Docs == <<
  << <<Rep_(N("k") \o C(" = ") \o <<-1, 10>>)>>, << Star(P(N("k"), Num(<<-1>>))) >> >>,
  << <<Rep_(C("[") \o N("t") \o L("]") \o C("a = ") \o Q(<<-1>>) \o Nl)>>, << Star(P(N("t") \o C(".a"), S(<<-1>>))) >> >>,
  << <<Rep_(L("[[a]]") \o C("x = ") \o <<-1, 10>>)>>, << Fix(P(C("a"), <<"tabs", << Star(<<Fix(P(C("x"), Num(<<-1>>)))>>) >>>>)) >> >>,
  << <<Rep_(C("[[") \o N("a") \o L("]]") \o C("x = ") \o <<-1, 13, 10>>)>>, << Star(P(N("a"), <<"tabs", << Fix(<<Fix(P(C("x"), Num(<<-1>>)))>>) >>>>)) >> >>,
  << <<Rep_(L("[[a]]") \o C("x = ") \o <<-1, 10>> \o C("[") \o N("t") \o L("]") \o L("b = true"))>>,
     << Fix(P(C("a"), <<"tabs", << Star(<<Fix(P(C("x"), Num(<<-1>>)))>>) >>>>)), Star(P(N("t") \o C(".b"), <<"bool", 1>>)) >> >>,
  << <<Rep_(L("[[a]]") \o C("x = ") \o <<-1, 10>> \o L("[[b]]") \o C("y = ") \o Q(N("v")) \o Nl)>>,
     << Fix(P(C("a"), <<"tabs", << Star(<<Fix(P(C("x"), Num(<<-1>>)))>>) >>>>)), Fix(P(C("b"), <<"tabs", << Star(<<Fix(P(C("y"), S(N("v"))))>>) >>>>)) >> >>,
  << <<One(L("[[z]]") \o L("q = 1")), Rep_(C("[") \o N("t") \o L("]") \o L("b = 1.5"))>>, << Star(P(N("t") \o C(".b"), Num(C("1.5")))), Fix(P(C("z"), <<"tabs", << Fix(<<Fix(P(C("q"), Num(C("1"))))>>) >>>>)) >> >>,
  << <<Rep_(C("[") \o N("t") \o L("]") \o L("b = 1.5")), One(L("[[z]]") \o L("q = 1") \o L("[c]") \o L("d = 2"))>>,
     << Fix(P(C("c.d"), Num(C("2")))), Star(P(N("t") \o C(".b"), Num(C("1.5")))), Fix(P(C("z"), <<"tabs", << Fix(<<Fix(P(C("q"), Num(C("1"))))>>) >>>>)) >> >>,
  << <<One(C("a = [")), Rep_(<<-1>> \o C(", ")), One(L("]"))>>, << Fix(P(C("a"), <<"arr", <<Star(Num(<<-1>>))>>>>)) >> >>,
  << <<One(C("a = [")), Rep_(Q(N("s")) \o C(", # ] ") \o Nl), One(C("]"))>>, << Fix(P(C("a"), <<"arr", <<Star(S(N("s")))>>>>)) >> >>,
  << <<One(C("a = [")), Rep_(C("[") \o <<-1>> \o C(", []],")), One(L("]") \o L("b = 1"))>>, << Fix(P(C("a"), <<"arr", <<Star(<<"arr", <<Fix(Num(<<-1>>)), Fix(<<"arr", <<>>>>)>>>>)>>>>)), Fix(P(C("b"), Num(C("1")))) >> >>,
  << <<One(C("a = ") \o <<34>>), Rep_(N("x\\\"\\u00e9") \o <<128512>>), One(<<34, 10>> \o L("b = 1"))>>, << Fix(P(C("a"), <<"str", <<Star(C("x\"") \o <<233, -1, 128512>>)>>>>)), Fix(P(C("b"), Num(C("1")))) >> >>,
  << <<One(C("a = \"\"\"") \o Nl), Rep_(N("l\"") \o Nl), One(L("\"\"\""))>>, << Fix(P(C("a"), <<"str", <<Star(C("l\"") \o <<-1, 10>>)>>>>)) >> >>,
  << <<One(C("a = \"\"\"")), Rep_(N("l") \o C("\\") \o Nl \o C("  ") \o Nl), One(L("\"\"\""))>>, << Fix(P(C("a"), <<"str", <<Star(C("l") \o <<-1>>)>>>>)) >> >>,
  << <<Rep_(L("# [a] \"") \o Nl), One(L("a = 1 # x")), Rep_(L("#"))>>, << Fix(P(C("a"), Num(C("1")))) >> >>,
  << <<One(L("[[a]]") \o L("[a.b]")), Rep_(N("k") \o C("=") \o <<-1, 10>>)>>, << Fix(P(C("a"), <<"tabs", << Fix(<< Star(P(C("a.b.") \o N("k"), Num(<<-1>>))) >>) >>>>)) >> >>,
  << <<One(L("[[a]]")), Rep_(C("[a.") \o N("s") \o L("]") \o C("v=") \o <<-1, 10>>)>>, << Fix(P(C("a"), <<"tabs", << Fix(<< Star(P(C("a.") \o N("s") \o C(".v"), Num(<<-1>>))) >>) >>>>)) >> >>,
  << <<One(L("[[a]]")), Rep_(N("k") \o C("=") \o <<-1, 10>>), One(L("[[a]]") \o L("z=1"))>>, << Fix(P(C("a"), <<"tabs", << Fix(<< Star(P(N("k"), Num(<<-1>>))) >>), Fix(<<Fix(P(C("z"), Num(C("1"))))>>) >>>>)) >> >>,
  << <<One(L("[t]")), Rep_(N("k") \o C("=[") \o <<-1>> \o L("]")), One(L("[u]")), Rep_(N("k") \o L("=false"))>>,
     << Star(P(C("t.") \o N("k"), <<"arr", <<Fix(Num(<<-1>>))>>>>)), Star(P(C("u.") \o N("k"), <<"bool", 0>>)) >> >>,
  << <<One(C("[")), Rep_(N("s") \o C(".")), One(L("z]") \o L("k = 7"))>>, << Fix(PK(<<Star(C("s") \o <<-1>> \o C(".")), Fix(C("z.k"))>>, Num(C("7")))) >> >>,
  << <<Rep_(N("s")), One(L(" = 7"))>>, << Fix(PK(<<Star(N("s"))>>, Num(C("7")))) >> >>,
  << <<One(<<34>>), Rep_(<<32, 233, -1>>), One(L("\" = 7"))>>, << Fix(PK(<<Star(<<32, 233, -1>>)>>, Num(C("7")))) >> >>,
  << <<One(C("a = 0.")), Rep_(C("1")), One(C("2"))>>, << Fix(P(C("a"), <<"num", <<Fix(C("0.")), Star(C("1")), Fix(C("2"))>>>>)) >> >>,
  << <<One(C("a = 1.")), Rep_(<<-1>>), One(Nl \o L("b=2"))>>, << Fix(P(C("a"), <<"num", <<Fix(C("1.")), Star(<<-1>>)>>>>)), Fix(P(C("b"), Num(C("2")))) >> >>,
  << <<Rep_(N("d") \o L(" = 1979-05-27"))>>, << Star(P(N("d"), Date(C("1979-05-27")))) >> >>,
  << <<Rep_(L("[[t]]"))>>, << Fix(P(C("t"), <<"tabs", <<Star(<<>>)>>>>)) >> >>,
  << <<One(L("[[t]]")), Rep_(Nl \o L("  ") \o L("#")), One(L("a = \"\" # x"))>>, << Fix(P(C("t"), <<"tabs", << Fix(<<Fix(P(C("a"), S(<<>>)))>>) >>>>)) >> >>
>>
\* written out
Numbers(i) == DecNat(100000 + i)
SubT(s, i) == Flat(MapSeq(s, LAMBDA c : IF c = -1 THEN Numbers(i) ELSE <<c>>))
\* m copies of the repeated, i being the number where the list itself stands
Spread(xs, m, i, F(_, _)) == Flat(MapSeq(xs, LAMBDA x : IF x[1] = "*" THEN [j \in 1..m |-> F(x[2], j - 1)] \o <<>> ELSE <<F(x[2], i)>>))
TextOut(ps, m, i) == Flat(Spread(ps, m, i, SubT))
RECURSIVE ValOut(_, _, _)
MapOut(ps, m, i) == Spread(ps, m, i, LAMBDA p, j : <<TextOut(p[1], m, j), ValOut(p[2], m, j)>>)
ValOut(v, m, i) ==
  CASE v[1] \in {"str", "num", "date"} -> <<v[1], TextOut(v[2], m, i)>>
    [] v[1] = "arr" -> <<"arr", Spread(v[2], m, i, LAMBDA x, j : ValOut(x, m, j))>>
    [] v[1] = "tabs" -> <<"tabs", Spread(v[2], m, i, LAMBDA x, j : MapOut(x, m, j))>>
    [] OTHER -> v
\* for the harness
Pack(xs, F(_)) == MapSeq(xs, LAMBDA x : IF x[1] = "*" THEN <<"cnt", n, <<F(x[2])>>>> ELSE F(x[2]))
PackT(ps) == Flat(MapSeq(ps, LAMBDA x : IF x[1] = "*" THEN <<<<"cnt", n, x[2]>>>> ELSE x[2]))
RECURSIVE ValLong(_)
MapLong(ps) == Pack(ps, LAMBDA p : <<PackT(p[1]), ValLong(p[2])>>)
ValLong(v) ==
  CASE v[1] \in {"str", "num", "date"} -> <<v[1], PackT(v[2])>>
    [] v[1] = "arr" -> <<"arr", Pack(v[2], LAMBDA x : ValLong(x))>>
    [] v[1] = "tabs" -> <<"tabs", Pack(v[2], LAMBDA x : MapLong(x))>>
    [] OTHER -> v
Text(m) == Flat(MapSeq(Docs[k][1], LAMBDA p : IF p[1] THEN p[2] ELSE Flat([j \in 1..m |-> SubT(p[2], j - 1)] \o <<>>)))
TextLong == Flat(MapSeq(Docs[k][1], LAMBDA p : IF p[1] THEN p[2] ELSE <<<<"cnt", n, p[2]>>>>))

Init == ph = "idle" /\ k = 0 /\ n = 0
Choose == ph = "idle" /\ k' \in 1..Len(Docs) /\ ph' = "chosen" /\ UNCHANGED n
Grow == ph = "chosen" /\ n' \in {1, 2, 3, 7, 12} /\ ph' = "small" /\ UNCHANGED k
Blow == ph = "chosen" /\ n' \in (IF Thorough THEN {255, 256, 257, 300, 511, 1000, 1025, 2049, 4097, 10000, 65535, 65536, 65537, 100000} ELSE {256, 257, 1025, 4097, 65537}) /\ ph' = "large" /\ UNCHANGED k
Next == Choose \/ Grow \/ Blow
Spec == Init /\ [][Next]_vars
Denotes == ph = "small" => TParse(Text(n)) = <<"ok", MapOut(Docs[k][2], n, 0)>>
\* cut short anywhere it still has an outcome; the harness sees the same documents at length
Observe == ph = "large" => Emit(<<[o |-> "dec", big |-> 1, s |-> TextLong, x |-> <<"ok", MapLong(Docs[k][2])>>]>>)
=============================================================================
