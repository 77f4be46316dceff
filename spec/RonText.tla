------------------------------- MODULE RonText -------------------------------
(* RON as nanoserde reads and writes it: tokenizer, decoder machine with one  *)
(* token of lookahead, documents and their spellings.  Shares the token and   *)
(* result conventions of JsonText; RON's own tokens are ( ) "id" and "chr".   *)
EXTENDS JsonText

(* ------------------------------ tokenizer ------------------------------- *)
\* blanks and comments; an unterminated block comment ends at the end of the text
RECURSIVE RSkip(_, _, _)
RSkip(t, p, l) ==
  LET q == SkipWs(t, p) IN
  IF At(t, q) # 47 THEN <<"ok", q, l>>
  ELSE IF At(t, q + 1) = 47 THEN RSkip(t, FindNlOr0(t, q + 1), l)
  ELSE IF At(t, q + 1) = 42 THEN
       LET b == BlockEnd(t, q + 2) IN RSkip(t, b[2], l \/ ~b[1] \/ b[2] = q + 3)
  ELSE Bad("parse", q + 1)
\* numbers may start with the decimal point; integers that fit no machine word are no tokens
RNumTok(t, p) ==
  LET k == NumTok(t, p)
      float == \E q \in p..(k[3] - 1) : At(t, q) \in {46, 101, 69}
  IN IF k[1] = "flt" /\ ~float THEN Bad("parse", k[3]) ELSE k
REsc == {34, 92, 47, 98, 102, 110, 114, 116, 48, 117}
RECURSIVE OddEsc(_, _, _)
OddEsc(t, p, e) == IF p > e THEN FALSE ELSE IF t[p] = 92 THEN (At(t, p + 1) \notin REsc) \/ OddEsc(t, p + 2, e) ELSE OddEsc(t, p + 1, e)
RStrTok(t, p) == LET k == StrTok(t, p, <<>>, FALSE) IN IF k[1] = "bad" THEN k ELSE [k EXCEPT ![4] = OddEsc(t, p, k[3] - 2)]
RIdTok(t, p) ==
  LET e == SkipIdent(t, p)
      w == SubSeq(t, p, e - 1) IN
  IF w = C("true") THEN Tok("true", w, e, FALSE) ELSE IF w = C("false") THEN Tok("false", w, e, FALSE) ELSE Tok("id", w, e, FALSE)
RChrTok(t, p) == LET q == IF At(t, p + 1) = 92 THEN p + 2 ELSE p + 1 IN
                 IF At(t, q + 1) = 39 THEN Tok("chr", <<At(t, q)>>, q + 2, FALSE) ELSE Bad("token", q + 1)
RPunct == [c \in DOMAIN Punct \cup {40, 41} |-> IF c = 40 THEN "(" ELSE IF c = 41 THEN ")" ELSE Punct[c]]
RNextTok(t, p) ==
  LET s == RSkip(t, p, FALSE) IN
  IF s[1] = "bad" THEN s
  ELSE LET q == s[2]
           c == At(t, q)
           k == IF c = 0 THEN Tok("eof", <<>>, q, q <= Len(t))
                ELSE IF c \in DOMAIN RPunct THEN Tok(RPunct[c], <<>>, q + 1, FALSE)
                ELSE IF IsDigit(c) \/ c \in {43, 45, 46} THEN RNumTok(t, q)
                ELSE IF c = 34 THEN RStrTok(t, q + 1)
                ELSE IF c = 39 THEN RChrTok(t, q)
                ELSE IF IsAlpha(c) THEN RIdTok(t, q)
                ELSE Bad("token", q)
       IN IF k[1] # "bad" /\ s[3] THEN [k EXCEPT ![4] = TRUE] ELSE k
RECURSIVE RToks(_, _, _)
RToks(t, p, acc) == LET k == RNextTok(t, p) IN
                    IF k[1] \in {"bad", "eof"} THEN Append(acc, k) ELSE RToks(t, k[3], Append(acc, k))
RTokens(t) == RToks(t, 1, <<>>)

(* ------------------------------- decoder -------------------------------- *)
RECURSIVE RDec(_, _, _), RSeq(_, _, _, _), RArr(_, _, _, _, _), RTup(_, _, _, _, _), RMap(_, _, _, _), RDur(_, _, _), RMembers(_, _, _, _)
RSeq(t, K, i, acc) ==
  IF Is(K, i, "]") THEN Adv(K, i, acc)
  ELSE LET r == RDec(t, K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], "]") IN IF Failed(c) THEN c ELSE RSeq(t, K, c[3], Append(acc, r[2]))
RArr(t, K, i, n, acc) ==
  IF n = 0 THEN LET c == Expect(K, i, ")") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE LET r == RDec(t, K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], ")") IN IF Failed(c) THEN c ELSE RArr(t, K, c[3], n - 1, Append(acc, r[2]))
RTup(ts, K, i, k, acc) ==
  IF k > Len(ts) THEN LET c == Expect(K, i, ")") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE LET r == RDec(ts[k], K, i) IN IF Failed(r) THEN r
       ELSE LET c == EatComma(K, r[3], ")") IN IF Failed(c) THEN c ELSE RTup(ts, K, c[3], k + 1, Append(acc, r[2]))
RMap(t, K, i, acc) ==
  IF Is(K, i, "}") THEN Adv(K, i, acc)
  ELSE LET k == RDec(t.kt, K, i) IN IF Failed(k) THEN k
       ELSE LET c == Expect(K, k[3], ":") IN IF Failed(c) THEN c
       ELSE LET v == RDec(t.vt, K, c[3]) IN IF Failed(v) THEN v
       ELSE LET e == EatComma(K, v[3], "}") IN IF Failed(e) THEN e ELSE RMap(t, K, e[3], MapIns(acc, k[2], v[2]))
\* <<secs, nanos>> read so far; the same members as in JSON
RDur(K, i, acc) == DDur(K, i, acc, 0)
RField(f, got) == IF f.s THEN <<"ok", f.sv>> ELSE IF got # <<>> THEN <<"ok", got[1]>>
                  ELSE IF f.rm[1] = "req" THEN <<"missing">> ELSE <<"ok", f.rm[2]>>
RMembers(fs, K, i, acc) ==
  IF ~Is(K, i, "id") THEN LET c == Expect(K, i, ")") IN IF Failed(c) THEN c ELSE Ok(acc, c[3])
  ELSE IF \A k \in 1..Len(fs) : fs[k].s THEN Err(K, i, "token", <<>>)
  ELSE LET k == FieldAt(fs, K[i][2]) IN
       IF k = 0 THEN Err(K, i, "key", K[i][2])
       ELSE LET a == Adv(K, i, <<>>) IN IF Failed(a) THEN a
       ELSE LET c == Expect(K, a[3], ":") IN IF Failed(c) THEN c
       ELSE LET v == RDec(fs[k].t, K, c[3]) IN IF Failed(v) THEN v
       ELSE LET e == EatComma(K, v[3], ")") IN IF Failed(e) THEN e ELSE RMembers(fs, K, e[3], [acc EXCEPT ![k] = <<v[2]>>])
RFields(fs, K, i) ==
  LET o == Expect(K, i, "(") IN IF Failed(o) THEN o
  ELSE LET m == RMembers(fs, K, o[3], [k \in 1..Len(fs) |-> <<>>] \o <<>>) IN IF Failed(m) THEN m
  ELSE LET vs == [k \in 1..Len(fs) |-> RField(fs[k], m[2][k])] \o <<>>
           mis == {k \in 1..Len(fs) : vs[k][1] = "missing"} IN
       IF mis # {} THEN Err(K, m[3], "missing", fs[CHOOSE k \in mis : \A j \in mis : k <= j].f)
       ELSE Ok(MapSeq(vs, LAMBDA x : x[2]), m[3])
RVariantAt(vs, name) == LET S == {k \in 1..Len(vs) : vs[k].n = name} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
IsNone(K, i) == Is(K, i, "id") /\ K[i][2] = C("None")
RDec(tt, K, i) ==
  LET t == Res(tt) k0 == K[i][1] IN
  CASE t.k = "int" -> DecInt(t, K, i)
    [] t.k = "flt" -> IF k0 \in {"u64", "i64", "flt"} THEN Adv(K, i, <<"flt", FloatLex(K[i])>>) ELSE Err(K, i, "token", <<>>)
    [] t.k = "bool" -> IF k0 \in {"true", "false"} THEN Adv(K, i, <<"bool", IF k0 = "true" THEN 1 ELSE 0>>)
                       ELSE IF k0 = "u64" THEN Err(K, i, "lenient", <<>>)    \* read as a number: left open
                       ELSE Err(K, i, "token", <<>>)
    [] t.k = "str" -> IF k0 = "str" THEN Adv(K, i, <<"str", K[i][2]>>) ELSE Err(K, i, "token", <<>>)
    [] t.k = "unit" -> LET o == Expect(K, i, "(") IN IF Failed(o) THEN o
                       ELSE LET c == Expect(K, o[3], ")") IN IF Failed(c) THEN c ELSE Ok(Unit, c[3])
    [] t.k = "opt" -> IF IsNone(K, i) THEN Adv(K, i, None)
                      ELSE LET r == RDec(t.t, K, i) IN IF Failed(r) THEN r ELSE Ok(Some(r[2]), r[3])
    [] t.k \in {"seq", "set"} ->
         LET o == Expect(K, i, "[") IN IF Failed(o) THEN o
         ELSE LET r == RSeq(t.t, K, o[3], <<>>) IN
              IF Failed(r) THEN r ELSE Ok(<<"seq", IF t.k = "set" THEN SetOf(r[2]) ELSE r[2]>>, r[3])
    [] t.k = "arr" -> LET o == Expect(K, i, "(") IN IF Failed(o) THEN o ELSE WrapV(RArr(t.t, K, o[3], t.n, <<>>), "seq")
    [] t.k = "tup" -> LET o == Expect(K, i, "(") IN IF Failed(o) THEN o ELSE WrapV(RTup(t.ts, K, o[3], 1, <<>>), "tup")
    [] t.k = "tstruct" -> LET o == Expect(K, i, "(") IN IF Failed(o) THEN o ELSE WrapV(RTup(t.ts, K, o[3], 1, <<>>), "tup")
    [] t.k = "map" -> LET o == Expect(K, i, "{") IN IF Failed(o) THEN o ELSE WrapV(RMap(t, K, o[3], <<>>), "map")
    [] t.k = "dur" -> LET o == Expect(K, i, "{") IN IF Failed(o) THEN o ELSE RDur(K, o[3], <<<<>>, <<>>>>)
    [] t.k = "sys" -> IF IsNone(K, i) THEN Adv(K, i, <<"sys", <<48>>, <<48>>>>)
                      ELSE LET r == RDec([k |-> "dur"], K, i) IN
                           IF Failed(r) THEN r
                           ELSE IF ~IntLe(r[2][2], I64Max) THEN Err(K, r[3], "range", <<>>) ELSE Ok(<<"sys", r[2][2], r[2][3]>>, r[3])
    [] t.k = "struct" -> WrapV(RFields(t.fs, K, i), "rec")
    [] t.k = "enum" ->
         IF k0 # "id" THEN Err(K, i, "token", <<>>)
         ELSE LET a == Adv(K, i, <<>>) IN IF Failed(a) THEN a
         ELSE LET x == RVariantAt(t.vs, K[i][2]) IN
              IF x = 0 THEN Err(K, a[3], "enum", K[i][2])
              ELSE LET w == t.vs[x]
                       b == IF w.k = "unit" THEN Ok(<<>>, a[3])
                            ELSE IF w.k = "rec" THEN RFields(w.fs, K, a[3])
                            ELSE LET p == Expect(K, a[3], "(") IN IF Failed(p) THEN p ELSE RTup(w.fs, K, p[3], 1, <<>>)
                   IN IF Failed(b) THEN b ELSE Ok(<<"var", x - 1, b[2]>>, b[3])
RStrict(K, i) == K[i][1] = "eof" /\ ~K[i][4] /\ \A k \in 1..(i - 1) : ~K[k][4]
\* <<"ok"|"okerr", v>>, <<"err", kind, loc, name>> or <<"any">>
RDecode(ty, t) ==
  LET K == RTokens(t)
      r == IF K[1][1] = "bad" THEN <<"err", K[1][2], K[1][3], <<>>>> ELSE RDec(ty, K, 1) IN
  IF Failed(r) THEN (IF r[2] = "lenient" THEN <<"any">> ELSE <<"err", r[2], Loc(t, r[3]), r[4]>>)
  ELSE IF RStrict(K, r[3]) THEN <<"ok", r[2]>> ELSE <<"okerr", r[2]>>

(* ------------------------------ documents ------------------------------- *)
\* <<"par", head, docs>> <<"named", head, <<<<name, doc>>..>>>> and the JSON shapes
IdD(cps) == <<"lit", cps>>
RECURSIVE RTree(_, _)
RTreeF(fs, vs) == Flat([k \in 1..Len(fs) |->
   IF fs[k].s \/ (fs[k].o /\ vs[k] = None) THEN <<>> ELSE << <<IdD(fs[k].j), RTree(fs[k].t, vs[k])>> >>] \o <<>>)
RTreeT(ts, vs) == [i \in 1..Len(ts) |-> RTree(ts[i], vs[i])] \o <<>>
RTree(tt, v) ==
  LET t == Res(tt) IN
  CASE t.k \in {"int", "flt"} -> <<"num", v[2]>>
    [] t.k = "bool" -> Lit(IF v[2] = 1 THEN "true" ELSE "false")
    [] t.k = "str" -> <<"str", v[2]>>
    [] t.k = "unit" -> <<"par", <<>>, <<>>>>
    [] t.k = "opt" -> IF v = None THEN Lit("None") ELSE RTree(t.t, v[2])
    [] t.k \in {"seq", "set"} -> <<"arr", MapSeq(v[2], LAMBDA x : RTree(t.t, x))>>
    [] t.k = "arr" -> <<"par", <<>>, MapSeq(v[2], LAMBDA x : RTree(t.t, x))>>
    [] t.k = "map" -> <<"obj", MapSeq(v[2], LAMBDA p : <<RTree(t.kt, p[1]), RTree(t.vt, p[2])>>)>>
    [] t.k \in {"tup", "tstruct"} -> <<"par", <<>>, RTreeT(t.ts, v[2])>>
    [] t.k \in {"dur", "sys"} -> <<"obj", << <<KeyD(C("secs")), <<"num", v[2]>>>> >> \o (IF v[3] = <<48>> THEN <<>> ELSE << <<KeyD(C("nanos")), <<"num", v[3]>>>> >>)>>
    [] t.k = "struct" -> <<"named", <<>>, RTreeF(t.fs, v[2])>>
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         IF w.k = "unit" THEN IdD(w.n) ELSE IF w.k = "rec" THEN <<"named", w.n, RTreeF(w.fs, v[3])>> ELSE <<"par", w.n, RTreeT(w.fs, v[3])>>
\* escapes: JSON's spellings and the one the RON writer uses
REscChar(e, k, c) == IF e < 6 THEN EscChar(e, k, c)
  ELSE CASE c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 0 -> <<92, 48>> [] c \in {34, 92} -> <<92, c>> [] OTHER -> <<c>>
RQuote(e, s) == <<34>> \o Flat([k \in 1..Len(s) |-> REscChar(e, k, s[k])] \o <<>>) \o <<34>>
\* tc: trailing commas (0 none, 1 everywhere)
RECURSIVE RLeaves(_, _, _, _)
Trail(ps, tc) == CommaSep(ps) \o (IF tc = 1 /\ ps # <<>> THEN <<<<44>>>> ELSE <<>>)
Head_(h) == IF h = <<>> THEN <<>> ELSE <<h>>
RLeaves(d, e, o, tc) ==
  CASE d[1] = "str" -> <<RQuote(e, d[2])>>
    [] d[1] \in {"num", "lit", "raw"} -> <<d[2]>>
    [] d[1] = "arr" -> <<<<91>>>> \o Trail(MapSeq(d[2], LAMBDA x : RLeaves(x, e, o, tc)), tc) \o <<<<93>>>>
    [] d[1] = "par" -> Head_(d[2]) \o <<<<40>>>> \o Trail(MapSeq(d[3], LAMBDA x : RLeaves(x, e, o, tc)), tc) \o <<<<41>>>>
    [] d[1] = "obj" -> <<<<123>>>> \o Trail(MapSeq(Perm(d[2], o), LAMBDA m : RLeaves(m[1], e, o, tc) \o <<<<58>>>> \o RLeaves(m[2], e, o, tc)), tc) \o <<<<125>>>>
    [] d[1] = "named" -> Head_(d[2]) \o <<<<40>>>> \o Trail(MapSeq(Perm(d[3], o), LAMBDA m : RLeaves(m[1], e, o, tc) \o <<<<58>>>> \o RLeaves(m[2], e, o, tc)), tc) \o <<<<41>>>>
RRender(d, g, e, o, tc) == Glue(RLeaves(d, e, o, tc), g, 1)
RText(ty, v) == RRender(RTree(ty, v), 1, 6, 0, 1)
=============================================================================
