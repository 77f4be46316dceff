------------------------------ MODULE Rfc8259 -------------------------------
(* Standard JSON, independent of nanoserde: a strict reader of RFC 8259 texts *)
(* and what the tree of a typed value has to be.                              *)
(* Trees: <<"obj", <<<<key, tree>>..>>>> <<"arr", trees>> <<"str", cps>>      *)
(*        <<"num", lexeme>> <<"true">> <<"false">> <<"null">>                 *)
EXTENDS Types
NoJ == <<FALSE, <<>>, 0>>
J(d, p) == <<TRUE, d, p>>
StartsAt(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w
HexRun(t, p) == p + 3 <= Len(t) /\ \A i \in p..(p + 3) : IsHex(t[i])
Hex(t, p) == HexVal(t[p]) * 4096 + HexVal(t[p + 1]) * 256 + HexVal(t[p + 2]) * 16 + HexVal(t[p + 3])
EscOf == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
\* characters of a string from p to its closing quote
RECURSIVE RStr(_, _, _)
RStr(t, p, acc) ==
  IF p > Len(t) \/ t[p] < 32 THEN NoJ
  ELSE IF t[p] = 34 THEN J(acc, p + 1)
  ELSE IF t[p] # 92 THEN RStr(t, p + 1, Append(acc, t[p]))
  ELSE IF p + 1 > Len(t) THEN NoJ
  ELSE IF t[p + 1] \in DOMAIN EscOf THEN RStr(t, p + 2, Append(acc, EscOf[t[p + 1]]))
  ELSE IF t[p + 1] = 117 /\ HexRun(t, p + 2) THEN
       LET a == Hex(t, p + 2) IN
       IF IsScalar(a) THEN RStr(t, p + 6, Append(acc, a))
       ELSE IF a < 56320 /\ StartsAt(t, p + 6, <<92, 117>>) /\ HexRun(t, p + 8)
            THEN LET b == Hex(t, p + 8) IN
                 IF b >= 56320 /\ b <= 57343 THEN RStr(t, p + 12, Append(acc, 65536 + (a - 55296) * 1024 + (b - 56320))) ELSE NoJ
            ELSE NoJ
  ELSE NoJ
\* number: [-] int [frac] [exp]
RNum(t, p) ==
  LET i0 == IF At(t, p) = 45 THEN p + 1 ELSE p
      i1 == SkipDigits(t, i0)
      f1 == IF At(t, i1) = 46 THEN SkipDigits(t, i1 + 1) ELSE i1
      ex == At(t, f1) \in {101, 69}
      x0 == IF At(t, f1 + 1) \in {43, 45} THEN f1 + 2 ELSE f1 + 1
      x1 == IF ex THEN SkipDigits(t, x0) ELSE f1
  IN IF i1 = i0 \/ (t[i0] = 48 /\ i1 > i0 + 1) \/ f1 = i1 + 1 \/ (ex /\ x1 = x0) THEN NoJ
     ELSE J(<<"num", SubSeq(t, p, x1 - 1)>>, x1)
RECURSIVE RVal(_, _), RElems(_, _, _), RMems(_, _, _)
RVal(t, p0) ==
  LET p == SkipWs(t, p0)
      c == At(t, p) IN
  CASE c = 34 -> LET s == RStr(t, p + 1, <<>>) IN IF s[1] THEN J(<<"str", s[2]>>, s[3]) ELSE NoJ
    [] c = 45 \/ IsDigit(c) -> RNum(t, p)
    [] c = 91 -> LET q == SkipWs(t, p + 1) IN IF At(t, q) = 93 THEN J(<<"arr", <<>>>>, q + 1) ELSE RElems(t, p + 1, <<>>)
    [] c = 123 -> LET q == SkipWs(t, p + 1) IN IF At(t, q) = 125 THEN J(<<"obj", <<>>>>, q + 1) ELSE RMems(t, p + 1, <<>>)
    [] c = 116 /\ StartsAt(t, p, C("true")) -> J(<<"true">>, p + 4)
    [] c = 102 /\ StartsAt(t, p, C("false")) -> J(<<"false">>, p + 5)
    [] c = 110 /\ StartsAt(t, p, C("null")) -> J(<<"null">>, p + 4)
    [] OTHER -> NoJ
RElems(t, p, acc) ==
  LET v == RVal(t, p) IN
  IF ~v[1] THEN NoJ
  ELSE LET q == SkipWs(t, v[3])
           a == Append(acc, v[2]) IN
       IF At(t, q) = 44 THEN RElems(t, q + 1, a) ELSE IF At(t, q) = 93 THEN J(<<"arr", a>>, q + 1) ELSE NoJ
RMems(t, p, acc) ==
  LET k0 == SkipWs(t, p) IN
  IF At(t, k0) # 34 THEN NoJ
  ELSE LET k == RStr(t, k0 + 1, <<>>) IN
  IF ~k[1] THEN NoJ
  ELSE LET c == SkipWs(t, k[3]) IN
  IF At(t, c) # 58 THEN NoJ
  ELSE LET v == RVal(t, c + 1) IN
  IF ~v[1] THEN NoJ
  ELSE LET q == SkipWs(t, v[3])
           a == Append(acc, <<k[2], v[2]>>) IN
       IF At(t, q) = 44 THEN RMems(t, q + 1, a) ELSE IF At(t, q) = 125 THEN J(<<"obj", a>>, q + 1) ELSE NoJ
\* the whole text is one JSON value: <<TRUE, tree, _>>
Rfc(t) == LET v == RVal(t, 1) IN IF v[1] /\ SkipWs(t, v[3]) = Len(t) + 1 THEN v ELSE NoJ

(* --------------------- what a typed value has to be ---------------------- *)
\* types whose output RFC 8259 can express: every map key is written as a string
RECURSIVE Std(_, _)
Std(tt, d) ==
  IF d = 0 THEN TRUE ELSE
  LET t == Res(tt) IN
  CASE t.k \in {"opt", "seq", "set", "arr"} -> Std(t.t, d - 1)
    [] t.k = "map" -> LET k == Res(t.kt) IN (k.k = "str" \/ (k.k = "enum" /\ \A w \in Range(k.vs) : w.k = "unit")) /\ Std(t.vt, d - 1)
    [] t.k \in {"tup", "tstruct"} -> \A x \in Range(t.ts) : Std(x, d - 1)
    [] t.k = "struct" -> \A f \in Range(t.fs) : f.s \/ Std(f.w, d - 1)
    [] t.k = "enum" -> \A w \in Range(t.vs) : \A x \in Range(w.fs) : IF w.k = "rec" THEN x.s \/ Std(x.w, d - 1) ELSE Std(x, d - 1)
    [] t.k = "proxy" -> Std(t.p, d - 1)
    [] OTHER -> TRUE
\* are two float spellings the same float of b bytes; nums: spelling -> bits, recorded; without it, mathematically equal
SameFloat(nums, b, x, y) ==
  IF nums = <<>> THEN x = y
  ELSE LET of(l) == {i \in 1..Len(nums) : nums[i][1] = l} IN
       \E i \in of(x) : \E j \in of(y) : nums[i][IF b = 4 THEN 2 ELSE 3] = nums[j][IF b = 4 THEN 2 ELSE 3]
RECURSIVE Is8259(_, _, _, _)
\* the value d stands for the value v of type tt
Fields8259(nums, fs, vs, d) ==
  LET names == {k \in 1..Len(fs) : ~fs[k].s /\ ~(fs[k].o /\ vs[k] = None /\ ~fs[k].nn)} IN
  /\ d[1] = "obj" /\ Len(d[2]) = Cardinality(names)
  /\ \A k \in names : \E m \in 1..Len(d[2]) :
       /\ d[2][m][1] = fs[k].j
       /\ IF fs[k].o /\ vs[k] = None THEN d[2][m][2] = <<"null">>
          ELSE IF fs[k].px # "" THEN Is8259(nums, fs[k].w, Conv(fs[k].px, IF fs[k].o THEN vs[k][2] ELSE vs[k]), d[2][m][2])
          ELSE Is8259(nums, fs[k].t, vs[k], d[2][m][2])
  /\ \A a, b \in 1..Len(d[2]) : d[2][a][1] = d[2][b][1] => a = b
Arr8259(nums, ts, vs, d) == d[1] = "arr" /\ Len(d[2]) = Len(vs) /\ \A i \in 1..Len(vs) : Is8259(nums, ts[i], vs[i], d[2][i])
Is8259(nums, tt, v, d) ==
  LET t == Res(tt) IN
  CASE t.k = "int" -> d = <<"num", v[2]>>
    [] t.k = "flt" -> d[1] = "num" /\ SameFloat(nums, t.b, d[2], v[2])
    [] t.k = "bool" -> d = IF v[2] = 1 THEN <<"true">> ELSE <<"false">>
    [] t.k = "str" -> d = <<"str", v[2]>>
    [] t.k = "unit" -> d = <<"null">>
    [] t.k = "opt" -> IF v = None THEN d = <<"null">> ELSE Is8259(nums, t.t, v[2], d)
    [] t.k \in {"seq", "arr"} \/ (t.k = "set" /\ ~t.h) -> Arr8259(nums, [i \in 1..Len(v[2]) |-> t.t], v[2], d)
    [] t.k = "set" -> d[1] = "arr" /\ Len(d[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(v[2]) : Is8259(nums, t.t, v[2][i], d[2][j])
    [] t.k = "map" ->
         LET keyOf(x) == LET k == Res(t.kt) IN IF k.k = "str" THEN x[2] ELSE k.vs[x[2] + 1].j IN
         /\ d[1] = "obj" /\ Len(d[2]) = Len(v[2])
         /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(v[2]) :
              (t.h \/ i = j) /\ d[2][j][1] = keyOf(v[2][i][1]) /\ Is8259(nums, t.vt, v[2][i][2], d[2][j][2])
    [] t.k = "tup" -> Arr8259(nums, t.ts, v[2], d)
    [] t.k = "tstruct" -> IF t.ts = <<>> THEN d = <<"obj", <<>>>>
                          ELSE IF t.tr THEN Is8259(nums, t.ts[1], v[2][1], d) ELSE Arr8259(nums, t.ts, v[2], d)
    [] t.k \in {"dur", "sys"} ->
         /\ d[1] = "obj"
         /\ d[2] = << <<C("secs"), <<"num", v[2]>>>> >> \o (IF v[3] = <<48>> /\ Len(d[2]) = 1 THEN <<>> ELSE << <<C("nanos"), <<"num", v[3]>>>> >>)
    [] t.k = "struct" -> Fields8259(nums, t.fs, v[2], d)
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         IF w.k = "unit" THEN d = <<"str", w.j>>
         ELSE /\ d[1] = "obj" /\ Len(d[2]) = 1 /\ d[2][1][1] = w.j
              /\ IF w.k = "rec" THEN Fields8259(nums, w.fs, v[3], d[2][1][2]) ELSE Arr8259(nums, w.fs, v[3], d[2][1][2])
    [] t.k = "proxy" -> Is8259(nums, t.p, Conv(t.c, v), d)
=============================================================================
