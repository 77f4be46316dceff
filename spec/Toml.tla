-------------------------------- MODULE Toml --------------------------------
(* TOML as nanoserde reads it: a lexer over code points, a machine over       *)
(* statements.  Values: <<"str",cps>> <<"bool",b>> <<"num",lexeme>>           *)
(* <<"date",cps>> <<"arr",values>> and, for arrays of tables, <<"tabs",maps>>;*)
(* a map is a sequence of <<key, value>> sorted by key.  Numbers are          *)
(* canonical decimal lexemes, "nan" or "inf" with an optional minus.          *)
EXTENDS Types
TTok(k, pl, e) == <<k, pl, e>>
TBad(kind, p) == <<"bad", kind, p>>
\* characters of a bare key
IsTId(c) == \/ c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c \in {45, 95, 178, 179, 185}
            \/ c \in 188..190 \/ c \in 192..214 \/ c \in 216..246 \/ c \in 248..893 \/ c \in 895..8191
            \/ c \in 8204..8205 \/ c \in 8255..8256 \/ c \in 8304..8591 \/ c \in 9312..9471 \/ c \in 11264..12271
            \/ c \in 12289..55295 \/ c \in 63744..64975 \/ c \in 65008..65533 \/ c \in 65536..983039
TermChars == {32, 9, 13, 10, 0, 61, 93, 44, 35}
RECURSIVE SkipTId(_, _), SkipNumT(_, _), SkipDate(_, _), TSkip(_, _), SkipQ(_, _, _)
SkipTId(t, p) == IF p <= Len(t) /\ (t[p] = 46 \/ IsTId(t[p])) THEN SkipTId(t, p + 1) ELSE p
SkipNumT(t, p) == IF p <= Len(t) /\ (IsDigit(t[p]) \/ t[p] = 95) THEN SkipNumT(t, p + 1) ELSE p
SkipDate(t, p) == IF p <= Len(t) /\ (IsDigit(t[p]) \/ t[p] \in {58, 45, 84}) THEN SkipDate(t, p + 1) ELSE p
\* at most n quotes from p on
SkipQ(t, p, n) == IF n > 0 /\ At(t, p) = 34 THEN SkipQ(t, p + 1, n - 1) ELSE p
\* blanks and comments
TSkip(t, p) == LET q == SkipWs(t, p) IN IF At(t, q) = 35 THEN TSkip(t, FindNlOr0(t, q)) ELSE q
NoUnder(s) == SelectSeq(s, LAMBDA c : c # 95)
TIdent(t, p, start) ==
  LET e == SkipTId(t, p)
      w == start \o SubSeq(t, p, e - 1) IN
  IF At(t, e) \notin TermChars THEN TBad("parse", e)
  ELSE IF w = C("true") THEN TTok("bool", 1, e) ELSE IF w = C("false") THEN TTok("bool", 0, e)
  ELSE IF w = C("inf") \/ w = C("nan") THEN TTok("flt", w, e) ELSE TTok("id", w, e)
WordText(k) == IF k[1] = "bool" THEN (IF k[2] = 1 THEN C("true") ELSE C("false")) ELSE k[2]
\* a word of at most three letters after the sign: how far it matches
RECURSIVE Match(_, _, _)
Match(t, p, w) == IF w # <<>> /\ At(t, p) = w[1] THEN Match(t, p + 1, Tail(w)) ELSE p
TNum(t, p) ==
  LET neg == t[p] = 45
      p1 == IF t[p] \in {43, 45} THEN p + 1 ELSE p
      sign == IF neg THEN <<45>> ELSE <<>>
      word == IF At(t, p1) = 110 THEN C("nan") ELSE IF At(t, p1) = 105 THEN C("inf") ELSE <<>>
      p2 == Match(t, p1, word)
      p3 == SkipNumT(t, p2)
      digs == NoUnder(SubSeq(t, p2, p3 - 1))
      num == sign \o SubSeq(t, p1, p2 - 1) \o digs IN
  IF word # <<>> /\ p2 = p1 + 3 /\ At(t, p2) \in TermChars THEN TTok("flt", sign \o word, p2)
  ELSE CASE At(t, p3) = 46 -> LET p4 == SkipNumT(t, p3 + 1)
                                  frac == NoUnder(SubSeq(t, p3 + 1, p4 - 1)) IN
              IF p2 = p1 /\ (digs # <<>> \/ frac # <<>>) THEN TTok("flt", num \o <<46>> \o frac, p4) ELSE TBad("parse", p4)
         [] At(t, p3) = 45 -> LET p4 == SkipDate(t, p3 + 1) IN TTok("date", num \o SubSeq(t, p3, p4 - 1), p4)
         [] IsTId(At(t, p3)) -> TIdent(t, p3, num)
         [] OTHER -> IF p2 # p1 \/ digs = <<>> THEN TBad("parse", p3)
                     ELSE LET n == Canon(neg, digs) IN
                          IF IntLe(C("-9223372036854775808"), n) /\ IntLe(n, C("9223372036854775807")) THEN TTok("int", n, p3) ELSE TBad("parse", p3)
\* escape whose letter is at p: <<"ok", char, next>> or a bad token
RECURSIVE THex(_, _, _, _)
THex(t, p, n, acc) == IF n = 0 THEN <<"ok", acc, p>> ELSE IF ~IsHex(At(t, p)) THEN TBad("parse", p)
                      ELSE THex(t, p + 1, n - 1, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(t[p]))
TEsc(t, p) ==
  LET c == At(t, p)
      u(n) == LET h == THex(t, p + 1, n, 0) IN IF h[1] = "bad" THEN h ELSE IF ~IsScalar(h[2]) THEN TBad("parse", h[3]) ELSE h IN
  CASE c = 0 -> TBad("parse", p)
    [] c = 117 -> u(4) [] c = 85 -> u(8)
    [] OTHER -> <<"ok", CASE c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c, p + 1>>
RECURSIVE TBasic(_, _, _), TMulti(_, _, _)
TBasic(t, p, acc) ==
  LET c == At(t, p) IN
  IF c = 0 THEN TBad("parse", p) ELSE IF c = 34 THEN TTok("str", acc, p + 1)
  ELSE IF c # 92 THEN TBasic(t, p + 1, Append(acc, c))
  ELSE LET e == TEsc(t, p + 1) IN IF e[1] = "bad" THEN e ELSE TBasic(t, e[3], Append(acc, e[2]))
TMulti(t, p, acc) ==
  LET c == At(t, p) IN
  IF c = 0 THEN TBad("parse", p)
  ELSE IF c = 34 THEN LET q == SkipQ(t, p, 5) IN
       IF q - p >= 3 THEN TTok("str", acc \o Rep(34, q - p - 3), q) ELSE TMulti(t, q, acc \o Rep(34, q - p))
  ELSE IF c # 92 THEN TMulti(t, p + 1, Append(acc, c))
  ELSE IF IsWs(At(t, p + 1)) THEN TMulti(t, SkipWs(t, p + 1), acc)
  ELSE LET e == TEsc(t, p + 1) IN IF e[1] = "bad" THEN e ELSE TMulti(t, e[3], Append(acc, e[2]))
TStr(t, p) ==
  LET q == SkipQ(t, p, 3) IN
  CASE q - p = 1 -> TBasic(t, q, <<>>) [] q - p = 2 -> TTok("str", <<>>, q)
    [] OTHER -> TMulti(t, IF At(t, q) = 10 THEN q + 1 ELSE IF At(t, q) = 13 /\ At(t, q + 1) = 10 THEN q + 2 ELSE q, <<>>)
\* the token whose search starts at p; in a key position words that look like numbers are words
TNext(t, p0, key) ==
  LET p == TSkip(t, p0)
      c == At(t, p) IN
  CASE c = 0 -> TTok("eof", <<>>, p)
    [] c = 44 -> TTok(",", <<>>, p + 1) [] c = 91 -> TTok("[", <<>>, p + 1) [] c = 93 -> TTok("]", <<>>, p + 1) [] c = 61 -> TTok("=", <<>>, p + 1)
    [] c = 34 -> TStr(t, p)
    [] (c \in {43, 45} \/ IsDigit(c)) /\ ~key -> TNum(t, p)
    [] IsTId(c) -> TIdent(t, p, <<>>)
    [] OTHER -> TBad("parse", p)
TErr(k) == IF k[1] = "bad" THEN <<"err", k[2], k[3]>> ELSE <<"err", "token", k[3]>>

(* ------------------------------- machine -------------------------------- *)
RECURSIVE TVal(_, _), TArr(_, _, _)
TArr(t, p, acc) ==
  LET k == TNext(t, p, FALSE) IN
  IF k[1] = "]" THEN <<"ok", <<"arr", acc>>, k[3]>> ELSE IF k[1] = "," THEN TArr(t, k[3], acc)
  ELSE LET v == TVal(t, k) IN IF v[1] = "err" THEN v ELSE TArr(t, v[3], Append(acc, v[2]))
TVal(t, k) ==
  CASE k[1] = "[" -> TArr(t, k[3], <<>>)
    [] k[1] = "str" -> <<"ok", <<"str", k[2]>>, k[3]>>
    [] k[1] = "bool" -> <<"ok", <<"bool", k[2]>>, k[3]>>
    [] k[1] \in {"int", "flt"} -> <<"ok", <<"num", k[2]>>, k[3]>>
    [] k[1] = "date" -> <<"ok", <<"date", k[2]>>, k[3]>>
    [] OTHER -> TErr(k)
\* maps
CmpKey(a, b) == CmpCps(a, b, 1)
Put(m, k, v) == SelectSeq(m, LAMBDA x : CmpKey(x[1], k) < 0) \o <<<<k, v>>>> \o SelectSeq(m, LAMBDA x : CmpKey(x[1], k) > 0)
Holds(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
StartsWith(s, w) == Len(s) >= Len(w) /\ Take(s, Len(w)) = w
Dotted(scope, k) == IF scope = <<>> THEN k ELSE scope \o <<46>> \o k
\* state of the machine: the map, the prefix of keys, the array of tables being filled (or none)
T0 == [m |-> <<>>, scope |-> <<>>, arr |-> <<>>]
SetKey(S, k, v) ==
  IF S.arr = <<>> THEN [S EXCEPT !.m = Put(@, Dotted(S.scope, k), v)]
  ELSE LET ts == Get(S.m, S.arr[1])[2] IN
       [S EXCEPT !.m = Put(@, S.arr[1], <<"tabs", [ts EXCEPT ![Len(ts)] = Put(@, Dotted(S.scope, k), v)]>>)]
SetTable(S, k) == [S EXCEPT !.scope = k, !.arr = IF @ # <<>> /\ StartsWith(k, @[1] \o <<46>>) THEN @ ELSE <<>>]
CanArr(S, k) == ~Holds(S.m, k) \/ Get(S.m, k)[1] = "tabs"
SetArr(S, k) == [S EXCEPT !.scope = <<>>, !.arr = <<k>>, !.m = Put(@, k, <<"tabs", Append(IF Holds(S.m, k) THEN Get(S.m, k)[2] ELSE <<>>, <<>>)>>)]
RECURSIVE TLines(_, _, _)
TLines(t, p, S) ==
  LET k == TNext(t, p, TRUE) IN
  CASE k[1] = "eof" -> <<"ok", S.m>>
    [] k[1] = "[" ->
       LET h == TNext(t, k[3], TRUE) IN
       CASE h[1] \in {"str", "id", "bool", "flt"} ->
              LET c == TNext(t, h[3], FALSE) IN IF c[1] # "]" THEN TErr(c) ELSE TLines(t, c[3], SetTable(S, WordText(h)))
         [] h[1] = "[" ->
              LET n == TNext(t, h[3], TRUE) IN
              IF n[1] \notin {"str", "id", "bool", "flt"} THEN TErr(n)
              ELSE LET c == TNext(t, n[3], FALSE) IN IF c[1] # "]" THEN TErr(c)
              ELSE LET d == TNext(t, c[3], FALSE) IN IF d[1] # "]" THEN TErr(d)
              ELSE IF ~CanArr(S, WordText(n)) THEN <<"err", "parse", d[3]>> ELSE TLines(t, d[3], SetArr(S, WordText(n)))
         [] OTHER -> TErr(h)
    [] k[1] \in {"str", "id", "bool", "flt"} ->
       LET e == TNext(t, k[3], FALSE) IN IF e[1] # "=" THEN TErr(e)
       ELSE LET v == TVal(t, TNext(t, e[3], FALSE)) IN IF v[1] = "err" THEN v ELSE TLines(t, v[3], SetKey(S, WordText(k), v[2]))
    [] OTHER -> TErr(k)
\* <<"ok", map>> or <<"err", kind, loc>>
TParse(t) == LET r == TLines(t, 1, T0) IN IF r[1] = "ok" THEN r ELSE <<"err", r[2], Loc(t, r[3])>>
=============================================================================
