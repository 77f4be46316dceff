------------------------------- MODULE MC_Toml -------------------------------
(* An author writes a TOML document statement by statement, each spelled in   *)
(* one of several ways; what the document denotes is stated from the list of  *)
(* statements alone.  Strings are also built piece by piece, and every class  *)
(* of key character is tried.                                                 *)
EXTENDS Toml, Emit
VARIABLES ph, doc, text, salt
vars == <<ph, doc, text, salt>>
S(s) == <<"str", s>>
Num(s) == <<"num", C(s)>>
Q(s) == <<34>> \o s \o <<34>>
Q3(s) == <<34, 34, 34>> \o s \o <<34, 34, 34>>
\* <<spelling, key>>
B(s) == <<C(s), C(s)>>
Keys == << B("a"), B("b-1"), B("007"), B("1_0"), B("true"), B("inf"), B("-nan"), B("2024-04-30"), B("3.14"), B("x.y.z"), B("-"), B("1.0"), <<<<189>>, <<189>>>>, <<<<945, 95>>, <<945, 95>>>>,
           <<Q(C("a b")), C("a b")>>, <<Q(C("k.v")), C("k.v")>>, <<Q(<<>>), <<>>>>, <<Q(C("\\u0061\\\"#]=")), C("a\"#]=")>>, <<Q(<<128512>>), <<128512>>>>, <<Q(C("c")), C("c")>>, B("c"), B("d"), B("9"), B("nan"), B("false") >>
Heads == << B("t"), B("t.u"), B("1"), <<Q(C("q q")), C("q q")>>, B("true"), B("nan"), B("0x1"), B("ar.s"), B("ar"), B("arx"), B("2024-01-01"), B("+") >>
\* the last head is no key at all
GoodHeads == 1..(Len(Heads) - 1)
\* scalars: <<spelling, value>>
Nums == << <<C("0"), Num("0")>>, <<C("7"), Num("7")>>, <<C("-17"), Num("-17")>>, <<C("+99"), Num("99")>>, <<C("1_000"), Num("1000")>>, <<C("1_2_3"), Num("123")>>,
           <<C("9223372036854775807"), Num("9223372036854775807")>>, <<C("-9223372036854775808"), Num("-9223372036854775808")>>, <<C("9007199254740993"), Num("9007199254740993")>>,
           <<C("1.5"), Num("1.5")>>, <<C("-0.0"), Num("-0.0")>>, <<C("+3.25"), Num("3.25")>>, <<C("1_0.0_1"), Num("10.01")>>, <<C("0.1"), Num("0.1")>>, <<C("-0.000001"), Num("-0.000001")>>, <<C("123456789.125"), Num("123456789.125")>>,
           <<C("0.30000000000000004"), Num("0.30000000000000004")>>, <<C("-9_99"), Num("-999")>>,
           <<C("inf"), Num("inf")>>, <<C("+inf"), Num("inf")>>, <<C("-inf"), Num("-inf")>>, <<C("nan"), Num("nan")>>, <<C("+nan"), Num("nan")>>, <<C("-nan"), Num("-nan")>> >>
Others == << <<C("true"), <<"bool", 1>>>>, <<C("false"), <<"bool", 0>>>>, <<C("1979-05-27"), <<"date", C("1979-05-27")>>>>, <<C("1979-05-27T07:32:00"), <<"date", C("1979-05-27T07:32:00")>>>>, <<C("0000-01-01"), <<"date", C("0000-01-01")>>>> >>
Strs == << <<Q(<<>>), S(<<>>)>>, <<Q(C("v")), S(C("v"))>>, <<Q(C("# [x] = ',")), S(C("# [x] = ',"))>>, <<Q(C("\\\"\\\\")), S(C("\"\\"))>>, <<Q3(C("m")), S(C("m"))>>, <<Q3(<<>>), S(<<>>)>>, <<Q3(<<10>> \o C("one") \o <<10>> \o C("two")), S(C("one") \o <<10>> \o C("two"))>>,
           <<Q3(C("a\"b\"\"c")), S(C("a\"b\"\"c"))>>, <<Q(<<233, 128512>>), S(<<233, 128512>>)>>, <<Q(C("true")), S(C("true"))>> >>
Scalars == Nums \o Others \o Strs
NS == Len(Scalars)
\* layout inside an array: between tokens, newlines and comments are free
AGaps == << <<>>, <<32>>, <<10>>, <<13, 10, 9>>, C(" # ], \"") \o <<10>>, C("#") \o <<10>> \o C("#,") \o <<10, 32>> >>
RECURSIVE ArrText(_, _)
ArrText(vs, g) == \* vs: <<spelling, value>>
  IF vs = <<>> THEN <<>> ELSE vs[1][1] \o AGaps[1 + ((g * 5 + 2) % Len(AGaps))] \o (IF Len(vs) > 1 THEN <<44>> ELSE <<>>) \o AGaps[1 + ((g * 3 + 1) % Len(AGaps))] \o ArrText(Tail(vs), g + 1)
ArrOf(vs, g, tc) == << <<91>> \o AGaps[1 + (g % Len(AGaps))] \o ArrText(vs, g) \o (IF tc /\ vs # <<>> THEN <<44>> ELSE <<>>) \o AGaps[1 + ((g \div 2) % Len(AGaps))] \o <<93>>, <<"arr", MapSeq(vs, LAMBDA x : x[2])>> >>
Sc(k) == Scalars[1 + (k % NS)]
Arrs(g) == << ArrOf(<<>>, g, FALSE), ArrOf(<<Sc(g)>>, g, FALSE), ArrOf(<<Sc(g), Sc(g + 11), Sc(g + 23)>>, g, FALSE), ArrOf(<<Sc(g + 3), Sc(g + 5)>>, g, TRUE),
              ArrOf(<<ArrOf(<<Sc(g), Sc(g + 1)>>, g + 1, TRUE), ArrOf(<<>>, g, FALSE), ArrOf(<<Sc(g + 9)>>, g + 2, FALSE)>>, g, g % 2 = 0),
              ArrOf(<<ArrOf(<<ArrOf(<<ArrOf(<<Sc(g)>>, 0, FALSE)>>, g, FALSE)>>, 1, TRUE)>>, g, FALSE) >>
Values(g) == Scalars \o Arrs(g)
\* layout of a line
In == << <<>>, <<32>>, <<9, 32>> >>
Eol == << <<10>>, <<13, 10>>, C(" # x = [1") \o <<10>>, <<10, 10, 32, 10>>, C("#") \o <<10>>, C("#\"") \o <<13, 10>> >>
G(k) == In[1 + (k % Len(In))]
E(k) == Eol[1 + (k % Len(Eol))]

(* a statement: <<"kv", key, value>> <<"tab", key>> <<"arr", key>> <<"nop">> *)
Init == ph = "idle" /\ doc = <<>> /\ text = <<>> /\ salt = 0
Chance(a) == Len(doc) = 0 \/ Rnd(salt, a, Len(doc)) % (IF Len(doc) = 1 THEN (IF Sparse THEN 401 ELSE Pick(121, 37)) ELSE IF Len(doc) = 2 THEN Pick(661, 331) ELSE Pick(2003, 1301)) = 0
Rare(a, b) == Len(doc) = 0 \/ Rnd(salt, a, b) % (IF Len(doc) = 1 THEN 3 ELSE IF Len(doc) = 2 THEN 11 ELSE 23) = 0
Say(st, t, k) == doc' = Append(doc, st) /\ text' = text \o t \o E(salt + k) /\ salt' = (salt * 31 + k * 7 + Len(doc)) % 30011 /\ ph' = "doc"
Before_(i) == {j \in 1..(i - 1) : doc[j][1] \in {"tab", "arr"}}
Gov(i) == IF Before_(i) = {} THEN 0 ELSE CHOOSE j \in Before_(i) : \A l \in Before_(i) : l <= j
\* the array element a header belongs to
RECURSIVE Elem(_)
Elem(h) == IF h = 0 THEN 0 ELSE IF doc[h][1] = "arr" THEN h
           ELSE LET g == Elem(Gov(h)) IN IF g # 0 /\ StartsWith(doc[h][2], doc[g][2] \o <<46>>) THEN g ELSE 0
Scope(h) == IF h = 0 \/ doc[h][1] = "arr" THEN <<>> ELSE doc[h][2]
FullKey(i) == Dotted(Scope(Gov(i)), doc[i][2])
KVs(e) == {i \in 1..Len(doc) : doc[i][1] = "kv" /\ Elem(Gov(i)) = e}
RECURSIVE PutAll(_, _)
PutAll(m, is) == IF is = {} THEN m ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y IN PutAll(Put(m, FullKey(i), doc[i][3]), is \ {i})
RECURSIVE PutArrs(_, _)
ArrHeads(k) == SelectSeq([i \in 1..Len(doc) |-> i] \o <<>>, LAMBDA i : doc[i][1] = "arr" /\ doc[i][2] = k)
PutArrs(m, ks) == IF ks = {} THEN m ELSE LET k == CHOOSE x \in ks : TRUE IN PutArrs(Put(m, k, <<"tabs", MapSeq(ArrHeads(k), LAMBDA h : PutAll(<<>>, KVs(h)))>>), ks \ {k})
Meaning == PutArrs(PutAll(<<>>, KVs(0)), {doc[i][2] : i \in {j \in 1..Len(doc) : doc[j][1] = "arr"}})
\* what may come next without defining anything twice
Here == Gov(Len(doc) + 1)
NewKey(k) == \A i \in 1..Len(doc) : doc[i][1] = "kv" /\ Elem(Gov(i)) = Elem(Here) => FullKey(i) # Dotted(Scope(Here), k)
NotArr(k) == Elem(Here) # 0 \/ \A i \in 1..Len(doc) : doc[i][1] = "arr" => doc[i][2] # Dotted(Scope(Here), k)
NewTab(k) == \A i \in 1..Len(doc) : doc[i][1] \in {"tab", "arr"} => doc[i][2] # k
NewArr(k) == (\A i \in 1..Len(doc) : doc[i][1] = "tab" => doc[i][2] # k) /\ (\A i \in KVs(0) : FullKey(i) # k)
             \* an array below an array element belongs to the element; the flat map has no place for it
             /\ \A i \in 1..Len(doc) : doc[i][1] = "arr" => ~StartsWith(k, doc[i][2] \o <<46>>)
Open == ph \in {"idle", "doc"} /\ Len(doc) < Pick(5, 6)
KeyVal == \E i \in 1..Len(Keys) : LET VS == Values(salt + i) IN \E j \in 1..Len(VS) :
   /\ Chance(i * 64 + j) /\ (Len(doc) > 0 \/ i = 1 \/ (i + j) % (IF Sparse THEN 11 ELSE Pick(5, 1)) = 0) /\ NewKey(Keys[i][2]) /\ NotArr(Keys[i][2])
   /\ Say(<<"kv", Keys[i][2], VS[j][2]>>, G(i + j) \o Keys[i][1] \o G(i) \o <<61>> \o G(j + 1) \o VS[j][1] \o G(salt), i + j)
Table == \E i \in GoodHeads : Rare(i, 77) /\ NewTab(Heads[i][2])
   /\ Say(<<"tab", Heads[i][2]>>, G(i + salt) \o <<91>> \o G(i) \o Heads[i][1] \o G(salt) \o <<93>> \o G(i + 1), i)
ArrTable == \E i \in GoodHeads : Rare(i, 78) /\ NewArr(Heads[i][2])
   /\ Say(<<"arr", Heads[i][2]>>, G(i + salt) \o <<91, 91>> \o G(i + 1) \o Heads[i][1] \o G(salt) \o <<93, 93>> \o G(i), i)
Blank == Len(doc) \in 1..2 /\ Chance(99) /\ Say(<<"nop">>, C("  # [a] b = \"c\" ") \o <<233>>, 5)
Write == Open /\ (KeyVal \/ Table \/ ArrTable \/ Blank)
\* a string in pieces: <<spelling, meaning, kind>>
BPieces == << <<C("x"), C("x"), "raw">>, <<C("#"), C("#"), "raw">>, <<<<32>>, <<32>>, "ws">>, <<C("\\\""), C("\""), "raw">>, <<C("\\\\"), C("\\"), "raw">>, <<C("\\n"), <<10>>, "raw">>, <<C("\\u00e9"), <<233>>, "raw">>,
              <<C("\\U0001F600"), <<128512>>, "raw">>, <<<<128512>>, <<128512>>, "raw">>, <<C("\\t\\r\\b\\f"), <<9, 13, 8, 12>>, "raw">>, <<C("'"), C("'"), "raw">>, <<C("\\uD7FF\\uE000"), <<55295, 57344>>, "raw">>, <<C("\\U0010ffff"), <<1114111>>, "raw">> >>
MPieces == BPieces \o << <<<<34>>, <<34>>, "q">>, <<<<34, 34>>, <<34, 34>>, "q">>, <<<<10>>, <<10>>, "ws">>, <<<<13, 10>>, <<13, 10>>, "ws">>, <<<<92, 10>>, <<>>, "join">>, <<<<92, 32, 9, 13, 10, 32>>, <<>>, "join">> >>
\* doc holds the piece numbers; ph "b" basic, "m" multi-line
Piece == /\ ph \in {"idle", "b", "m"} /\ Len(doc) < (IF Sparse THEN 2 ELSE Pick(3, 4))
         /\ \E q \in {"b", "m"} : (ph = "idle" \/ ph = q) /\ ph' = q
              /\ \E k \in 1..(IF q = "b" THEN Len(BPieces) ELSE Len(MPieces)) :
                   /\ ~(Len(doc) > 0 /\ q = "m" /\ MPieces[k][3] = "q" /\ MPieces[doc[Len(doc)]][3] = "q")
                   /\ doc' = Append(doc, k) /\ UNCHANGED <<text, salt>>
Quoted == /\ ph \in {"b", "m"} /\ ph' = "str"
          /\ text' = (IF ph = "b" THEN Q(Flat(MapSeq(doc, LAMBDA k : BPieces[k][1]))) ELSE Q3(Flat(MapSeq(doc, LAMBDA k : MPieces[k][1])))) /\ salt' = (IF ph = "b" THEN 1 ELSE 2) /\ UNCHANGED doc
RECURSIVE Joined(_, _, _)
Joined(ks, first, swallow) == IF ks = <<>> THEN <<>> ELSE LET m == MPieces[ks[1]] IN
  IF (first /\ m[3] = "ws" /\ m[2] # <<32>>) \/ (swallow /\ m[3] = "ws") THEN Joined(Tail(ks), FALSE, swallow)
  ELSE m[2] \o Joined(Tail(ks), FALSE, m[3] = "join")
StrMeans == IF salt = 1 THEN Flat(MapSeq(doc, LAMBDA k : BPieces[k][2])) ELSE Joined(doc, TRUE, FALSE)
\* characters at the borders of the key classes
Edges == <<32, 33, 44, 45, 46, 47, 48, 57, 58, 64, 65, 90, 91, 94, 95, 96, 97, 122, 123, 126, 127, 177, 178, 179, 180, 184, 185, 186, 187, 188, 190, 191, 192, 214, 215, 216, 246, 247, 248, 893, 894, 895, 8191, 8192, 8203, 8204, 8205, 8206,
           8254, 8255, 8256, 8257, 8303, 8304, 8591, 8592, 9311, 9312, 9471, 9472, 11263, 11264, 12271, 12272, 12288, 12289, 55295, 57344, 63743, 63744, 64975, 64976, 65007, 65008, 65533, 65534, 65535, 65536, 983039, 983040, 1114111, 1, 8, 11, 12, 39, 160, 8232, 65279>>
Edge == ph = "idle" /\ \E k \in 1..Len(Edges) : ph' = "chr" /\ doc' = <<k>> /\ UNCHANGED <<text, salt>>
Next == Write \/ Piece \/ Quoted \/ Edge
Spec == Init /\ [][Next]_vars

Denotes == ph = "doc" => TParse(text) = <<"ok", Meaning>>
StrLine == C("k = ") \o text \o C(" # c") \o <<10>> \o C("l=1")
StrMap == << <<C("k"), S(StrMeans)>>, <<C("l"), Num("1")>> >>
StrDenotes == ph = "str" => TParse(StrLine) = <<"ok", StrMap>>
\* the last line needs no line end
Cut_ == IF ph = "doc" /\ text[Len(text)] = 10 THEN Take(text, Len(text) - (IF text[Len(text) - 1] = 13 THEN 2 ELSE 1)) ELSE text
EofEndsLine == ph = "doc" => TParse(Cut_) = TParse(text)
Case(s, m) == [o |-> "dec", s |-> s, x |-> <<"ok", m>>]
Ch == Edges[doc[1]]
ChrTexts == << <<97, Ch, 61, 49>>, <<Ch, 61, 49>>, <<91, 97, Ch, 93, 10, 98, 61, 49>> >>
Observe ==
  CASE ph = "doc" -> Emit(<<Case(text, Meaning)>> \o (IF Len(doc) < 3 THEN <<Case(Cut_, Meaning)>> ELSE <<>>))
    [] ph = "str" -> Emit(<<Case(StrLine, StrMap)>>)
    [] ph = "chr" -> Emit([i \in 1..3 |-> LET d == TParse(ChrTexts[i]) IN [o |-> "dec", s |-> ChrTexts[i], x |-> d]] \o <<>>)
    [] OTHER -> TRUE
=============================================================================
