------------------------------ MODULE JsonText ------------------------------
(* JSON as nanoserde reads and writes it.                                     *)
(*  - a tokenizer over code points, a decoder machine over tokens with one    *)
(*    token of lookahead, errors located at the last character looked at;     *)
(*  - documents as trees, and the ways one tree can be spelled.               *)
(* Token: <<kind, payload, endp, lenient>>; endp = position of the character  *)
(* after the token (already looked at).  kind: one of { } [ ] , : "str" "u64" *)
(* "i64" "flt" "true" "false" "null" "eof" or "bad" (payload = error kind,    *)
(* endp = where).  lenient: accepted although RFC 8259 would not.             *)
EXTENDS Types

Tok(k, pl, e, l) == <<k, pl, e, l>>
Bad(kind, p) == <<"bad", kind, p, FALSE>>
U64Max == C("18446744073709551615")
I64Min == C("-9223372036854775808")
I64Max == C("9223372036854775807")

(* ------------------------------ tokenizer ------------------------------- *)
\* end of a block comment whose first body character is at q: <<found, next position>>
RECURSIVE BlockEnd(_, _)
BlockEnd(t, q) == IF At(t, q) = 0 THEN <<FALSE, q>>
                  ELSE IF t[q] = 47 /\ t[q - 1] = 42 THEN <<TRUE, q + 1>> ELSE BlockEnd(t, q + 1)
\* skip blanks and comments: <<"ok", p, lenient>> or a bad token
RECURSIVE Skip(_, _, _)
Skip(t, p, l) ==
  LET q == SkipWs(t, p) IN
  IF At(t, q) # 47 THEN <<"ok", q, l>>
  ELSE IF At(t, q + 1) = 47 THEN Skip(t, FindNlOr0(t, q + 1), l)
  ELSE IF At(t, q + 1) = 42 THEN
       LET b == BlockEnd(t, q + 2) IN
       IF b[1] THEN Skip(t, b[2], l \/ b[2] = q + 3) ELSE Bad("token", b[2])
  ELSE Bad("token", q + 1)

\* numbers: sign digits [. digits] [e [sign] digits]
NumTok(t, p) ==
  LET sg == t[p] \in {43, 45}
      d0 == IF sg THEN p + 1 ELSE p
      d1 == SkipDigits(t, d0)
      dot == At(t, d1) = 46
      f1 == IF dot THEN SkipDigits(t, d1 + 1) ELSE d1
      ex == At(t, f1) \in {101, 69}
      x0 == IF ex THEN (IF At(t, f1 + 1) \in {43, 45} THEN f1 + 2 ELSE f1 + 1) ELSE f1
      x1 == IF ex THEN SkipDigits(t, x0) ELSE f1
      intd == SubSeq(t, d0, d1 - 1)
      frac == IF dot THEN f1 - d1 - 1 ELSE 0
      strictInt == intd # <<>> /\ (Len(intd) = 1 \/ intd[1] # 48) /\ t[p] # 43
      val == Canon(t[p] = 45, intd)
  IN IF dot \/ ex THEN
       IF (intd = <<>> /\ frac = 0) \/ (ex /\ x0 = x1) THEN Bad("parse", x1)
       ELSE Tok("flt", SubSeq(t, p, x1 - 1), x1, ~(strictInt /\ (dot => frac > 0)))
     ELSE IF intd = <<>> THEN Bad("parse", x1)
     ELSE IF t[p] = 45 /\ IntLe(I64Min, val) THEN Tok("i64", val, x1, ~strictInt)
     ELSE IF t[p] # 45 /\ IntLe(val, U64Max) THEN Tok("u64", val, x1, ~strictInt)
     ELSE Tok("flt", SubSeq(t, p, x1 - 1), x1, ~strictInt)

\* four hex digits at p: <<value, position after>> or <<-1, position of the offending character>>
Hex4At(t, p) ==
  LET bad == {i \in 0..3 : ~IsHex(At(t, p + i))} IN
  IF bad = {} THEN <<HexVal(t[p]) * 4096 + HexVal(t[p + 1]) * 256 + HexVal(t[p + 2]) * 16 + HexVal(t[p + 3]), p + 4>>
  ELSE <<-1, p + (CHOOSE i \in bad : \A j \in bad : i <= j)>>
\* \u escape whose 'u' is at p: <<code point, next>> or <<-1, where>>
UEscape(t, p) ==
  LET a == Hex4At(t, p + 1) IN
  IF a[1] = -1 \/ IsScalar(a[1]) THEN a
  ELSE IF a[1] >= 56320 \/ At(t, a[2]) # 92 THEN <<-1, a[2]>>
  ELSE IF At(t, a[2] + 1) # 117 THEN <<-1, a[2] + 1>>
  ELSE LET b == Hex4At(t, a[2] + 2) IN
       IF b[1] = -1 THEN b
       ELSE IF b[1] >= 56320 /\ b[1] <= 57343 THEN <<(a[1] - 55296) * 1024 + (b[1] - 56320) + 65536, b[2]>>
       ELSE <<-1, b[2]>>
Short(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 48 -> 0 [] OTHER -> c
StrictEsc == {34, 92, 47, 98, 102, 110, 114, 116}
\* string body from p; odd: escapes other than the standard ones and raw control characters are let through
RECURSIVE StrTok(_, _, _, _)
StrTok(t, p, acc, l) ==
  LET c == At(t, p) IN
  IF c = 0 THEN Bad("parse", p)
  ELSE IF c = 34 THEN Tok("str", acc, p + 1, l)
  ELSE IF c # 92 THEN StrTok(t, p + 1, Append(acc, c), l \/ c < 32)
  ELSE LET d == At(t, p + 1) IN
       IF d = 0 THEN Bad("parse", p + 1)
       ELSE IF d = 117 THEN LET u == UEscape(t, p + 1) IN
            IF u[1] = -1 THEN Bad("parse", u[2]) ELSE StrTok(t, u[2], Append(acc, u[1]), l)
       ELSE StrTok(t, p + 2, Append(acc, Short(d)), l \/ d \notin StrictEsc)

WordTok(t, p) ==
  LET e == SkipAlpha(t, p)
      w == SubSeq(t, p, e - 1) IN
  IF w = C("true") THEN Tok("true", <<>>, e, FALSE) ELSE IF w = C("false") THEN Tok("false", <<>>, e, FALSE)
  ELSE IF w = C("null") THEN Tok("null", <<>>, e, FALSE) ELSE Bad("token", e)
Punct == [c \in {123, 125, 91, 93, 44, 58} |-> CASE c = 123 -> "{" [] c = 125 -> "}" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 44 -> "," [] c = 58 -> ":"]

\* the token whose search starts at p
NextTok(t, p) ==
  LET s == Skip(t, p, FALSE) IN
  IF s[1] = "bad" THEN s
  ELSE LET q == s[2]
           c == At(t, q)
           k == IF c = 0 THEN Tok("eof", <<>>, q, q <= Len(t))
                ELSE IF c \in DOMAIN Punct THEN Tok(Punct[c], <<>>, q + 1, FALSE)
                ELSE IF IsDigit(c) \/ c \in {43, 45} THEN NumTok(t, q)
                ELSE IF c = 34 THEN StrTok(t, q + 1, <<>>, FALSE)
                ELSE IF IsAlpha(c) THEN WordTok(t, q)
                ELSE Bad("token", q)
       IN IF k[1] # "bad" /\ s[3] THEN [k EXCEPT ![4] = TRUE] ELSE k
\* all tokens up to the end or the first one that cannot be read
RECURSIVE Toks(_, _, _)
Toks(t, p, acc) == LET k == NextTok(t, p) IN
                   IF k[1] \in {"bad", "eof"} THEN Append(acc, k) ELSE Toks(t, k[3], Append(acc, k))
Tokens(t) == Toks(t, 1, <<>>)

(* ------------------------------- decoder -------------------------------- *)
\* state: i, the index of the current token.  <<"ok", value, i>> | <<"err", kind, pos, name>>
Ok(v, i) == <<"ok", v, i>>
Err(K, i, kind, name) == <<"err", kind, K[i][3], name>>
Next1(i, K) == Min2(i + 1, Len(K))
\* step to the next token
Adv(K, i, v) == LET j == Next1(i, K) IN
                IF K[j][1] = "bad" THEN <<"err", K[j][2], K[j][3], <<>>>> ELSE Ok(v, j)
Is(K, i, k) == K[i][1] = k
Expect(K, i, k) == IF Is(K, i, k) THEN Adv(K, i, <<>>) ELSE Err(K, i, "token", <<>>)
\* after an element: a comma, or the closer is next
EatComma(K, i, close) == IF Is(K, i, ",") THEN Adv(K, i, <<>>) ELSE IF Is(K, i, close) THEN Ok(<<>>, i) ELSE Err(K, i, "token", <<>>)
Failed(r) == r[1] = "err"
WrapV(r, tag) == IF Failed(r) THEN r ELSE Ok(<<tag, r[2]>>, r[3])
DecInt(t, K, i) ==
  LET k == K[i][1] v == K[i][2] IN
  IF k = "u64" THEN IF IntLe(v, t.hi) THEN Adv(K, i, <<"int", v>>) ELSE Err(K, i, "range", <<>>)
  ELSE IF k = "i64" /\ t.sg THEN IF IntLe(t.lo, v) THEN Adv(K, i, <<"int", v>>) ELSE Err(K, i, "range", <<>>)
  ELSE Err(K, i, "token", <<>>)

\* an unknown member's value: one scalar, or brackets until they balance
RECURSIVE Balance(_, _, _)
Balance(K, i, d) ==
  LET k == K[i][1]
      n == IF k \in {"[", "{"} THEN d + 1 ELSE IF k \in {"]", "}"} THEN d - 1 ELSE d IN
  IF k = "eof" THEN Err(K, i, "token", <<>>)
  ELSE LET a == Adv(K, i, <<>>) IN IF Failed(a) \/ n = 0 THEN a ELSE Balance(K, a[3], n)
Whole(K, i) ==
  CASE K[i][1] \in {"flt", "u64", "i64", "str", "true", "false", "null"} -> Adv(K, i, <<>>)
    [] K[i][1] \in {"[", "{"} -> Balance(K, i, 0)
    [] OTHER -> Err(K, i, "token", <<>>)

RECURSIVE Dec_(_, _, _), DSeq(_, _, _, _), DArr(_, _, _, _, _), DTup(_, _, _, _, _), DMap(_, _, _, _, _), DDur(_, _, _, _), DMembers(_, _, _, _)
DSeq(t, K, i, acc) ==
  IF Is(K, i, "]") THEN Adv(K, i, acc)
  ELSE LET r == Dec_(t, K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], "]") IN IF Failed(c) THEN c ELSE DSeq(t, K, c[3], Append(acc, r[2]))
\* n elements, then the closing bracket
DArr(t, K, i, n, acc) ==
  IF n = 0 THEN LET c == Expect(K, i, "]") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE LET r == Dec_(t, K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], "]") IN IF Failed(c) THEN c ELSE DArr(t, K, c[3], n - 1, Append(acc, r[2]))
DTup(ts, K, i, k, acc) ==
  IF k > Len(ts) THEN LET c == Expect(K, i, "]") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE LET r == Dec_(ts[k], K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], "]") IN IF Failed(c) THEN c ELSE DTup(ts, K, c[3], k + 1, Append(acc, r[2]))
DMap(t, K, i, acc, n) ==
  IF Is(K, i, "}") THEN Adv(K, i, acc)
  ELSE LET k == Dec_(t.kt, K, i) IN IF Failed(k) THEN k
       ELSE LET c == Expect(K, k[3], ":") IN IF Failed(c) THEN c
       ELSE LET v == Dec_(t.vt, K, c[3]) IN IF Failed(v) THEN v
       ELSE LET e == EatComma(K, v[3], "}") IN IF Failed(e) THEN e
       ELSE DMap(t, K, e[3], MapIns(acc, k[2], v[2]), n + 1)
\* acc: <<secs, nanos>>, each <<>> or <<decimal>>
DDur(K, i, acc, dummy) ==
  IF Is(K, i, "}") THEN
     LET c == Adv(K, i, <<>>) IN IF Failed(c) THEN c
     ELSE IF acc[1] = <<>> THEN Err(K, c[3], "parse", <<>>)
     ELSE LET ns == IF acc[2] = <<>> THEN <<48>> ELSE acc[2][1] IN
          IF ~IntLe(ns, C("1000000000")) THEN Err(K, c[3], "range", <<>>)
          ELSE IF ns = C("1000000000")
               THEN IF acc[1][1] = U64Max THEN Err(K, c[3], "range", <<>>) ELSE Ok(<<"dur", MulAdd(acc[1][1], 1, 1), <<48>>>>, c[3])
          ELSE Ok(<<"dur", acc[1][1], ns>>, c[3])
  ELSE IF ~Is(K, i, "str") THEN Err(K, i, "token", <<>>)
  ELSE LET key == K[i][2]
           a == Adv(K, i, <<>>)
           w == IF key = C("secs") THEN 1 ELSE IF key = C("nanos") THEN 2 ELSE 0 IN
       IF Failed(a) THEN a
       ELSE IF w = 0 \/ (w # 0 /\ acc[w] # <<>>) THEN Err(K, a[3], "parse", <<>>)
       ELSE LET c == Expect(K, a[3], ":") IN IF Failed(c) THEN c
       ELSE LET v == DecInt(IF w = 1 THEN T_u64 ELSE T_u32, K, c[3]) IN IF Failed(v) THEN v
       ELSE LET e == EatComma(K, v[3], "}") IN IF Failed(e) THEN e ELSE DDur(K, e[3], [acc EXCEPT ![w] = <<v[2][2]>>], 0)
\* the members of a derived object: acc[k] = <<>> or <<wire value>> of field k
FieldAt(fs, key) == LET S == {k \in 1..Len(fs) : ~fs[k].s /\ fs[k].j = key} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
WireT(f) == IF OptPx(f) THEN [k |-> "opt", t |-> f.w] ELSE f.w
DMembers(fs, K, i, acc) ==
  IF ~Is(K, i, "str") THEN LET c == Expect(K, i, "}") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE LET k == FieldAt(fs, K[i][2])
           a == Adv(K, i, <<>>) IN IF Failed(a) THEN a
       ELSE LET c == Expect(K, a[3], ":") IN IF Failed(c) THEN c
       ELSE LET v == IF k = 0 THEN Whole(K, c[3]) ELSE Dec_(WireT(fs[k]), K, c[3]) IN IF Failed(v) THEN v
       ELSE LET e == EatComma(K, v[3], "}") IN IF Failed(e) THEN e
       ELSE DMembers(fs, K, e[3], IF k = 0 THEN acc ELSE [acc EXCEPT ![k] = <<v[2]>>])
\* field value from what was read: <<"ok", v>> or <<"missing">>
FieldVal(f, got) ==
  IF f.s THEN <<"ok", f.sv>>
  ELSE IF got = <<>> THEN (IF f.jm[1] = "req" THEN <<"missing">> ELSE <<"ok", f.jm[2]>>)
  ELSE IF f.px = "" THEN <<"ok", got[1]>>
  ELSE IF f.o THEN <<"ok", IF got[1] = None THEN None ELSE Some(Unconv(f.px, got[1][2]))>> ELSE <<"ok", Unconv(f.px, got[1])>>
Assemble(fs, acc) == [k \in 1..Len(fs) |-> FieldVal(fs[k], acc[k])] \o <<>>
DFields(fs, K, i) ==
  LET o == Expect(K, i, "{") IN IF Failed(o) THEN o
  ELSE LET m == DMembers(fs, K, o[3], [k \in 1..Len(fs) |-> <<>>] \o <<>>) IN IF Failed(m) THEN m
  ELSE LET vs == Assemble(fs, m[2])
           mis == {k \in 1..Len(fs) : vs[k][1] = "missing"} IN
       IF mis # {} THEN Err(K, m[3], "missing", fs[CHOOSE k \in mis : \A j \in mis : k <= j].f)
       ELSE Ok(MapSeq(vs, LAMBDA x : x[2]), m[3])
\* what a number token says as a float: minus zero keeps its sign
FloatLex(k) == IF k[1] = "i64" /\ k[2] = <<48>> THEN <<45, 48>> ELSE k[2]
VariantAt(vs, name, unit) == LET S == {k \in 1..Len(vs) : vs[k].j = name /\ (vs[k].k = "unit") = unit} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Dec_(tt, K, i) ==
  LET t == Res(tt) k0 == K[i][1] IN
  CASE t.k = "int" -> DecInt(t, K, i)
    [] t.k = "flt" -> IF k0 \in {"u64", "i64", "flt"} THEN Adv(K, i, <<"flt", FloatLex(K[i])>>) ELSE Err(K, i, "token", <<>>)
    [] t.k = "bool" -> IF k0 \in {"true", "false"} THEN Adv(K, i, <<"bool", IF k0 = "true" THEN 1 ELSE 0>>) ELSE Err(K, i, "token", <<>>)
    [] t.k = "str" -> IF k0 = "str" THEN Adv(K, i, <<"str", K[i][2]>>) ELSE Err(K, i, "token", <<>>)
    [] t.k = "unit" -> IF k0 = "null" THEN Adv(K, i, Unit) ELSE Err(K, i, "token", <<>>)
    [] t.k = "opt" -> IF k0 = "null" THEN Adv(K, i, None)
                      ELSE LET r == Dec_(t.t, K, i) IN IF Failed(r) THEN r ELSE Ok(Some(r[2]), r[3])
    [] t.k \in {"seq", "set"} ->
         LET o == Expect(K, i, "[") IN IF Failed(o) THEN o
         ELSE LET r == DSeq(t.t, K, o[3], <<>>) IN
              IF Failed(r) THEN r ELSE Ok(<<"seq", IF t.k = "set" THEN SetOf(r[2]) ELSE r[2]>>, r[3])
    [] t.k = "arr" -> LET o == Expect(K, i, "[") IN IF Failed(o) THEN o ELSE WrapV(DArr(t.t, K, o[3], t.n, <<>>), "seq")
    [] t.k = "tup" -> LET o == Expect(K, i, "[") IN IF Failed(o) THEN o ELSE WrapV(DTup(t.ts, K, o[3], 1, <<>>), "tup")
    [] t.k = "map" -> LET o == Expect(K, i, "{") IN IF Failed(o) THEN o ELSE WrapV(DMap(t, K, o[3], <<>>, 0), "map")
    [] t.k = "dur" -> LET o == Expect(K, i, "{") IN IF Failed(o) THEN o ELSE DDur(K, o[3], <<<<>>, <<>>>>, 0)
    [] t.k = "sys" -> IF k0 = "null" THEN Adv(K, i, <<"sys", <<48>>, <<48>>>>)
                      ELSE LET r == Dec_([k |-> "dur"], K, i) IN
                           IF Failed(r) THEN r
                           ELSE IF ~IntLe(r[2][2], I64Max) THEN Err(K, r[3], "range", <<>>) ELSE Ok(<<"sys", r[2][2], r[2][3]>>, r[3])
    [] t.k = "tstruct" ->
         IF t.tr THEN LET r == Dec_(t.ts[1], K, i) IN IF Failed(r) THEN r ELSE Ok(<<"tup", <<r[2]>>>>, r[3])
         ELSE IF t.ts = <<>> THEN LET o == Expect(K, i, "{") IN IF Failed(o) THEN o
              ELSE LET c == Expect(K, o[3], "}") IN IF Failed(c) THEN c ELSE Ok(<<"tup", <<>>>>, c[3])
         ELSE LET o == Expect(K, i, "[") IN IF Failed(o) THEN o
              ELSE IF Len(t.ts) = 1
                   THEN LET r == Dec_(t.ts[1], K, o[3]) IN IF Failed(r) THEN r
                        ELSE LET c == Expect(K, r[3], "]") IN IF Failed(c) THEN c ELSE Ok(<<"tup", <<r[2]>>>>, c[3])
                   ELSE WrapV(DTup(t.ts, K, o[3], 1, <<>>), "tup")
    [] t.k = "struct" -> WrapV(DFields(t.fs, K, i), "rec")
    [] t.k = "enum" ->
         LET rest == \E w \in Range(t.vs) : w.k # "unit"
             units == \E w \in Range(t.vs) : w.k = "unit" IN
         IF k0 = "{" /\ rest THEN
           LET o == Adv(K, i, <<>>) IN IF Failed(o) THEN o
           ELSE IF ~Is(K, o[3], "str") THEN Err(K, o[3], "token", <<>>)
           ELSE LET name == K[o[3]][2]
                    a == Adv(K, o[3], <<>>) IN IF Failed(a) THEN a
           ELSE LET c == Expect(K, a[3], ":") IN IF Failed(c) THEN c
           ELSE LET x == VariantAt(t.vs, name, FALSE) IN
                IF x = 0 THEN Err(K, c[3], "enum", name)
                ELSE LET w == t.vs[x]
                         b == IF w.k = "rec" THEN DFields(w.fs, K, c[3])
                              ELSE LET p == Expect(K, c[3], "[") IN IF Failed(p) THEN p ELSE DTup(w.fs, K, p[3], 1, <<>>)
                     IN IF Failed(b) THEN b
                        ELSE LET e == Expect(K, b[3], "}") IN IF Failed(e) THEN e ELSE Ok(<<"var", x - 1, b[2]>>, e[3])
         ELSE IF k0 = "str" /\ units THEN
           LET a == Adv(K, i, <<>>) IN IF Failed(a) THEN a
           ELSE LET x == VariantAt(t.vs, K[i][2], TRUE) IN
                IF x = 0 THEN Err(K, a[3], "enum", K[i][2]) ELSE Ok(<<"var", x - 1, <<>>>>, a[3])
         ELSE Err(K, i, "token", <<>>)
    [] t.k = "proxy" -> LET r == Dec_(t.p, K, i) IN IF Failed(r) THEN r ELSE Ok(Unconv(t.c, r[2]), r[3])

\* does the token sequence K[a..b] form one value (with scalars allowed as member names)
RECURSIVE WfV(_, _, _), WfElems(_, _, _), WfMems(_, _, _)
Scalar == {"flt", "u64", "i64", "str", "true", "false", "null"}
\* index after the value starting at a, or 0
WfV(K, a, b) == IF a > b THEN 0 ELSE IF K[a][1] \in Scalar THEN a + 1
  ELSE IF K[a][1] = "[" THEN (IF a < b /\ K[a + 1][1] = "]" THEN a + 2 ELSE WfElems(K, a + 1, b))
  ELSE IF K[a][1] = "{" THEN (IF a < b /\ K[a + 1][1] = "}" THEN a + 2 ELSE WfMems(K, a + 1, b)) ELSE 0
WfElems(K, a, b) == LET e == WfV(K, a, b) IN IF e = 0 \/ e > b THEN 0 ELSE IF K[e][1] = "]" THEN e + 1 ELSE IF K[e][1] = "," THEN WfElems(K, e + 1, b) ELSE 0
WfMems(K, a, b) ==
  IF a > b THEN 0 ELSE LET k == WfV(K, a, b) IN IF k = 0 \/ k > b THEN 0 ELSE IF K[k][1] # ":" THEN 0
  ELSE LET e == WfV(K, k + 1, b) IN IF e = 0 \/ e > b THEN 0 ELSE IF K[e][1] = "}" THEN e + 1 ELSE IF K[e][1] = "," THEN WfMems(K, e + 1, b) ELSE 0
Strict(K, i) == /\ K[i][1] = "eof" /\ ~K[i][4] /\ \A k \in 1..(i - 1) : ~K[k][4]
                /\ WfV(K, 1, i - 1) = i
\* result of decoding text t as type ty: <<"ok"|"okerr", v>> or <<"err", kind, <<line, col>>, name>>
DecodeK(ty, K) == IF K[1][1] = "bad" THEN <<"err", K[1][2], K[1][3], <<>>>> ELSE Dec_(ty, K, 1)
Decode(ty, t) ==
  LET K == Tokens(t)
      r == DecodeK(ty, K) IN
  IF Failed(r) THEN <<"err", r[2], Loc(t, r[3]), r[4]>>
  ELSE IF Strict(K, r[3]) THEN <<"ok", r[2]>> ELSE <<"okerr", r[2]>>

(* ------------------------------ documents ------------------------------- *)
\* <<"obj", <<<<keydoc, doc>>..>>>> <<"arr", docs>> <<"str", cps>> <<"num", lexeme>> <<"lit", cps>>
Lit(s) == <<"lit", C(s)>>
KeyD(cps) == <<"str", cps>>
RECURSIVE Tree(_, _)
TreeFields(fs, vs) ==
  LET one(k) == LET f == fs[k] IN
        IF f.s THEN <<>>
        ELSE IF f.o /\ vs[k] = None THEN (IF f.nn THEN << <<KeyD(f.j), Lit("null")>> >> ELSE <<>>)
        ELSE IF f.px # "" THEN << <<KeyD(f.j), Tree(f.w, Conv(f.px, IF f.o THEN vs[k][2] ELSE vs[k]))>> >>
        ELSE << <<KeyD(f.j), Tree(f.t, vs[k])>> >>
  IN <<"obj", Flat([k \in 1..Len(fs) |-> one(k)] \o <<>>)>>
Tree(tt, v) ==
  LET t == Res(tt) IN
  CASE t.k \in {"int", "flt"} -> <<"num", v[2]>>
    [] t.k = "bool" -> Lit(IF v[2] = 1 THEN "true" ELSE "false")
    [] t.k = "str" -> <<"str", v[2]>>
    [] t.k = "unit" -> Lit("null")
    [] t.k = "opt" -> IF v = None THEN Lit("null") ELSE Tree(t.t, v[2])
    [] t.k \in {"seq", "set", "arr"} -> <<"arr", MapSeq(v[2], LAMBDA x : Tree(t.t, x))>>
    [] t.k = "map" -> <<"obj", MapSeq(v[2], LAMBDA p : <<Tree(t.kt, p[1]), Tree(t.vt, p[2])>>)>>
    [] t.k = "tup" -> <<"arr", [i \in 1..Len(t.ts) |-> Tree(t.ts[i], v[2][i])] \o <<>>>>
    [] t.k \in {"dur", "sys"} -> <<"obj", << <<KeyD(C("secs")), <<"num", v[2]>>>> >> \o (IF v[3] = <<48>> THEN <<>> ELSE << <<KeyD(C("nanos")), <<"num", v[3]>>>> >>)>>
    [] t.k = "tstruct" -> IF t.ts = <<>> THEN <<"obj", <<>>>> ELSE IF t.tr THEN Tree(t.ts[1], v[2][1])
                          ELSE <<"arr", [i \in 1..Len(t.ts) |-> Tree(t.ts[i], v[2][i])] \o <<>>>>
    [] t.k = "struct" -> TreeFields(t.fs, v[2])
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         IF w.k = "unit" THEN <<"str", w.j>>
         ELSE <<"obj", << <<KeyD(w.j), IF w.k = "rec" THEN TreeFields(w.fs, v[3]) ELSE <<"arr", [i \in 1..Len(w.fs) |-> Tree(w.fs[i], v[3][i])] \o <<>>>>>> >>>>
    [] t.k = "proxy" -> Tree(t.p, Conv(t.c, v))

\* escape spellings of one character inside a string
Pair(c) == LET x == c - 65536 IN <<92, 117>> \o Hex4(55296 + x \div 1024) \o <<92, 117>> \o Hex4(56320 + (x % 1024))
Up(s) == MapSeq(s, LAMBDA c : IF c >= 97 /\ c <= 102 THEN c - 32 ELSE c)
UEsc(c, up) == LET h == IF c >= 65536 THEN Pair(c) ELSE <<92, 117>> \o Hex4(c) IN IF up THEN MapSeq(Up(h), LAMBDA x : x) ELSE h
EscMin(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
               [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c < 32 -> UEsc(c, FALSE) [] OTHER -> <<c>>
\* 0 minimal, 1 every character \u, 2 every character \u upper case, 3 \/ and \u for controls, 4 alternating, 5 everything above ASCII
EscChar(e, k, c) ==
  CASE e = 0 -> EscMin(c)
    [] e = 1 -> UEsc(c, FALSE)
    [] e = 2 -> UEsc(c, TRUE)
    [] e = 3 -> IF c = 47 THEN <<92, 47>> ELSE IF c < 32 \/ c = 34 \/ c = 92 \/ c = 127 THEN UEsc(c, TRUE) ELSE <<c>>
    [] e = 4 -> IF k % 2 = 1 THEN UEsc(c, FALSE) ELSE EscMin(c)
    [] e = 5 -> IF c > 126 THEN UEsc(c, k % 2 = 0) ELSE EscMin(c)
Quote(e, s) == <<34>> \o Flat([k \in 1..Len(s) |-> EscChar(e, k, s[k])] \o <<>>) \o <<34>>
Gaps == << <<>>, <<32>>, <<10, 9>>, <<13, 10, 32>>, C("/*c*/"), C("//x") \o <<10>>, <<32>> \o C("/* ** / \" ] } // */") \o <<10, 9>> \o C("// */ , :") \o <<13, 10>>,
           C("/***//**/"), C("//") \o <<10>> \o C("/*") \o <<128512, 233, 10>> \o C("*/"),
           C("// a") \o <<13>> \o C(" b ] \" ") \o <<13, 10>>, C("/* / * // */ //*") \o <<10>>, <<13, 9, 13, 32>> \o C("//") \o <<9, 10>>, C("//") \o <<92, 10>> \o C("/*") \o <<13>> \o C("/*/") \o <<10>> >>
GapAt(g, k) == IF g <= Len(Gaps) THEN Gaps[g] ELSE Gaps[((k * 7 + g) % Len(Gaps)) + 1]
\* number spellings: 0 as is; others only where the type is a float (handled by the caller through the lexeme)
\* a tree as the list of its token texts
RECURSIVE Leaves(_, _, _)
RECURSIVE CommaSep(_)
CommaSep(ps) == IF Len(ps) <= 1 THEN Flat(ps) ELSE ps[1] \o <<<<44>>>> \o CommaSep(Tail(ps))
Leaves(d, e, o) ==
  CASE d[1] = "str" -> <<Quote(e, d[2])>>
    [] d[1] \in {"num", "lit", "raw"} -> <<d[2]>>
    [] d[1] = "arr" -> <<<<91>>>> \o CommaSep(MapSeq(d[2], LAMBDA x : Leaves(x, e, o))) \o <<<<93>>>>
    [] d[1] = "obj" -> <<<<123>>>> \o CommaSep(MapSeq(Perm(d[2], o), LAMBDA m : Leaves(m[1], e, o) \o <<<<58>>>> \o Leaves(m[2], e, o))) \o <<<<125>>>>
RECURSIVE Glue(_, _, _)
Glue(ps, g, k) == IF k > Len(ps) THEN GapAt(g, k) ELSE GapAt(g, k) \o ps[k] \o Glue(ps, g, k + 1)
Render(d, g, e, o) == Glue(Leaves(d, e, o), g, 1)
Text(ty, v) == Render(Tree(ty, v), 1, 0, 0)

\* mathematical value of a number spelling: <<negative, digits, exponent>> with no zeros at the ends
NumVal(lex) ==
  LET neg == lex[1] = 45
      p0 == IF lex[1] \in {43, 45} THEN 2 ELSE 1
      p1 == SkipDigits(lex, p0)
      f0 == IF At(lex, p1) = 46 THEN p1 + 1 ELSE p1
      f1 == SkipDigits(lex, f0)
      ds == SubSeq(lex, p0, p1 - 1) \o SubSeq(lex, f0, f1 - 1)
      es == IF At(lex, f1) \in {101, 69} THEN Drop(lex, f1) ELSE <<48>>
      eneg == es[1] = 45
      em == NatOf(IF es[1] \in {43, 45} THEN Tail(es) ELSE es)
      e0 == (IF eneg THEN -em ELSE em) - (f1 - f0)
      st == StripZ(IF ds = <<>> THEN <<48>> ELSE ds)
      RECURSIVE tz(_)
      tz(s) == IF Len(s) > 1 /\ s[Len(s)] = 48 THEN 1 + tz(SubSeq(s, 1, Len(s) - 1)) ELSE 0
      z == tz(st)
  IN IF st = <<48>> THEN <<neg, st, 0>> ELSE <<neg, Take(st, Len(st) - z), e0 + z>>
\* float spellings of the same value: the decimal point moved k places, exponent written in the given style
FloatSpell(lex, k, style) ==
  LET nv == NumVal(lex)
      e == nv[3] + k
      digs == IF k = 0 THEN nv[2] ELSE IF k < Len(nv[2]) THEN Take(nv[2], Len(nv[2]) - k) \o <<46>> \o Drop(nv[2], Len(nv[2]) - k)
              ELSE <<48, 46>> \o Rep(48, k - Len(nv[2])) \o nv[2]
      ee == CASE style = 0 -> <<101>> \o Dec(e) [] style = 1 -> <<69>> \o (IF e >= 0 THEN <<43>> ELSE <<>>) \o Dec(e)
              [] style = 2 -> <<101>> \o (IF e >= 0 THEN <<43, 48>> \o Dec(e) ELSE <<45, 48, 48>> \o Dec(-e))
              [] style = 3 -> <<69>> \o Dec(e)
  IN (IF nv[1] THEN <<45>> ELSE <<>>) \o digs \o ee
=============================================================================
