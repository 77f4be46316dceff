------------------------------- MODULE Types -------------------------------
(* Abstract values, their order, defaults and samples.                       *)
(*   <<"int",dec>> <<"flt",lexeme>> <<"str",cps>> <<"bool",0/1>> <<"unit">>   *)
(*   <<"none">> <<"some",v>> <<"seq",vs>> <<"tup",vs>> <<"rec",vs>>           *)
(*   <<"map",<<<<k,v>>..>>>> <<"var",index,vs>> <<"dur",secs,nanos>>          *)
(*   <<"sys",secs,nanos>> (time since the Unix epoch)                         *)
(* Sets and maps are kept sorted by LtVal and without duplicates.            *)
EXTENDS Schemas

None == <<"none">>
Some(v) == <<"some", v>>
Unit == <<"unit">>
Res(t) == IF t.k = "ref" THEN RefT(t.n) ELSE t     \* resolve a recursive occurrence

(* ------------------------------- order ---------------------------------- *)
\* -1, 0, 1
CmpNat(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpCps(_, _, _)
CmpCps(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN CmpNat(Len(a), Len(b))
                   ELSE IF a[i] # b[i] THEN CmpNat(a[i], b[i]) ELSE CmpCps(a, b, i + 1)
CmpInt(a, b) == IF a = b THEN 0 ELSE IF IntLe(a, b) THEN -1 ELSE 1
RECURSIVE CmpVal(_, _), CmpVals(_, _, _)
CmpVals(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN CmpNat(Len(a), Len(b))
                    ELSE LET c == CmpVal(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpVals(a, b, i + 1)
CmpVal(a, b) ==
  CASE a[1] = "int" -> CmpInt(a[2], b[2])
    [] a[1] = "str" -> CmpCps(a[2], b[2], 1)
    [] a[1] = "bool" -> CmpNat(a[2], b[2])
    [] a[1] = "unit" -> 0
    [] a[1] = "none" -> IF b[1] = "none" THEN 0 ELSE -1
    [] a[1] = "some" -> IF b[1] = "none" THEN 1 ELSE CmpVal(a[2], b[2])
    [] a[1] \in {"seq", "tup", "rec"} -> CmpVals(a[2], b[2], 1)
    [] a[1] = "var" -> IF a[2] # b[2] THEN CmpNat(a[2], b[2]) ELSE CmpVals(a[3], b[3], 1)
    [] a[1] \in {"dur", "sys"} -> LET c == CmpInt(a[2], b[2]) IN IF c # 0 THEN c ELSE CmpInt(a[3], b[3])

\* ordered, duplicate-free insertion (the collection keeps one copy; for maps the last value wins)
SetIns(s, x) ==
  LET lo == SelectSeq(s, LAMBDA y : CmpVal(y, x) < 0)
      hi == SelectSeq(s, LAMBDA y : CmpVal(y, x) > 0) IN lo \o <<x>> \o hi
MapIns(s, k, v) ==
  LET lo == SelectSeq(s, LAMBDA y : CmpVal(y[1], k) < 0)
      hi == SelectSeq(s, LAMBDA y : CmpVal(y[1], k) > 0) IN lo \o <<<<k, v>>>> \o hi
SetOf(xs) == FoldLeft(SetIns, <<>>, xs)
MapOf(ps) == FoldLeft(LAMBDA s, p : MapIns(s, p[1], p[2]), <<>>, ps)

(* ------------------------------ proxies --------------------------------- *)
Conv(c, v) ==
  CASE c = "wrap" -> <<"rec", <<<<"str", <<60>> \o v[2] \o <<62>>>>>>>>
    [] c = "scale" -> <<"int", Dec(NatOf(v[2]) * 3 + 7)>>
    [] c = "swap" -> <<"tup", <<v[2][2], v[2][1]>>>>
    [] c = "unopt" -> IF v = None THEN <<"seq", <<>>>> ELSE <<"seq", <<v[2]>>>>
Unconv(c, p) ==
  CASE c = "wrap" -> LET s == p[2][1][2] IN <<"str", IF Len(s) < 2 THEN <<>> ELSE SubSeq(s, 2, Len(s) - 1)>>
    [] c = "scale" -> IF IsNeg(p[2]) \/ NatOf(p[2]) < 7 THEN <<"int", <<48>>>>
                      ELSE <<"int", Dec(((NatOf(p[2]) - 7) \div 3) % 65536)>>
    [] c = "swap" -> <<"tup", <<p[2][2], p[2][1]>>>>
    [] c = "unopt" -> IF p[2] = <<>> THEN None ELSE Some(p[2][1])

\* the value a field puts on the wire, and back; an optional proxied field converts inside the option
OptPx(f) == f.px # "" /\ f.o
WireOf(f, v) == IF f.px = "" \/ v = None THEN v ELSE IF OptPx(f) THEN Some(Conv(f.px, v[2])) ELSE Conv(f.px, v)

(* ---------- what a round trip may lose: skipped fields, absent options ---------- *)
Miss(fmt, f) == IF fmt = "j" THEN f.jm ELSE f.rm
RECURSIVE Norm(_, _, _)
NormFields(fmt, fs, vs) ==
  [i \in 1..Len(fs) |->
     IF fs[i].s THEN (IF fmt = "b" THEN fs[i].bv ELSE fs[i].sv)
     ELSE IF fmt # "b" /\ fs[i].o /\ vs[i] = None /\ ~(fmt = "j" /\ fs[i].nn) THEN Miss(fmt, fs[i])[2]
     ELSE Norm(fmt, fs[i].t, vs[i])] \o <<>>
Norm(fmt, tt, v) ==
  LET t == Res(tt) IN
  CASE t.k = "opt" -> IF v = None THEN v ELSE Some(Norm(fmt, t.t, v[2]))
    [] t.k \in {"seq", "set", "arr"} -> <<v[1], MapSeq(v[2], LAMBDA x : Norm(fmt, t.t, x))>>
    [] t.k = "map" -> <<"map", MapSeq(v[2], LAMBDA p : <<Norm(fmt, t.kt, p[1]), Norm(fmt, t.vt, p[2])>>)>>
    [] t.k \in {"tup", "tstruct"} -> <<v[1], [i \in 1..Len(t.ts) |-> Norm(fmt, t.ts[i], v[2][i])] \o <<>>>>
    [] t.k = "struct" -> <<"rec", NormFields(fmt, t.fs, v[2])>>
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         IF w.k = "rec" THEN <<"var", v[2], NormFields(fmt, w.fs, v[3])>>
         ELSE <<"var", v[2], [i \in 1..Len(w.fs) |-> Norm(fmt, w.fs[i], v[3][i])] \o <<>>>>
    [] OTHER -> v

(* ------------------------------ samples --------------------------------- *)
DurSmp == << <<C("5"), C("7")>>, <<C("18446744073709551615"), C("999999999")>>, <<C("0"), C("0")>>, <<C("0"), C("1")>>,
             <<C("1"), C("999999999")>>, <<C("18446744073709551615"), C("0")>>, <<C("4294967296"), C("500000000")>>, <<C("86400"), C("0")>> >>
SysSmp == << <<C("1700000000"), C("123456789")>>, <<C("0"), C("0")>>, <<C("0"), C("1")>>, <<C("253402300800"), C("999999999")>>,
             <<C("9223372036854775807"), C("999999999")>>, <<C("1"), C("0")>> >>
Uniq(s) == FoldLeft(LAMBDA a, x : IF InSeq(x, a) THEN a ELSE Append(a, x), <<>>, s)
\* base vector, then each position varied alone, then the diagonals
Vectors(ss) ==
  LET base == [i \in 1..Len(ss) |-> ss[i][1]] \o <<>>
      one == Flat([i \in 1..Len(ss) |-> [j \in 1..(Len(ss[i]) - 1) |-> [base EXCEPT ![i] = ss[i][j + 1]]] \o <<>>] \o <<>>)
      mx == IF ss = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, s : Max2(a, Len(s)), 0, ss)
      diag == [j \in 1..mx |-> [i \in 1..Len(ss) |-> ss[i][Min2(j, Len(ss[i]))]] \o <<>>] \o <<>>
      \* among many parts of one type, vectors in which they differ
      mixed == IF Len(ss) < 8 THEN <<>> ELSE [j \in 1..4 |-> [i \in 1..Len(ss) |-> ss[i][((i * j + i \div 3 + j) % Len(ss[i])) + 1]] \o <<>>] \o <<>>
  IN Uniq(<<base>> \o mixed \o one \o diag)
\* every presence pattern of the optional fields
Presence(fs, base) ==
  LET O == {i \in 1..Len(fs) : fs[i].o} IN
  IF Cardinality(O) > 4 \/ Cardinality(O) = 0 THEN <<>>
  ELSE SetToSeq({[i \in 1..Len(fs) |-> IF i \in N THEN None ELSE base[i]] \o <<>> : N \in SUBSET O})
RECURSIVE Samples(_, _)
FieldSamples(fs, n) == Take(Vectors([i \in 1..Len(fs) |-> Samples(fs[i].t, Max2(1, (n + 1) \div 2))] \o <<>>), 6 * n)
Samples(tt, n) ==
  LET t == Res(tt)
      m == IF tt.k = "ref" THEN Max2(1, n \div 3) ELSE n
      h == Max2(1, m \div 2)
  IN
  CASE t.k = "int" -> MapSeq(Take(t.smp, m), LAMBDA x : <<"int", x>>)
    [] t.k = "flt" -> MapSeq(Take(t.smp, m), LAMBDA x : <<"flt", x>>)
    [] t.k = "str" -> MapSeq(Take(t.smp, m), LAMBDA x : <<"str", x>>)
    [] t.k = "bool" -> Take(<< <<"bool", 1>>, <<"bool", 0>> >>, m)
    [] t.k = "unit" -> <<Unit>>
    [] t.k = "dur" -> MapSeq(Take(DurSmp, m), LAMBDA x : <<"dur", x[1], x[2]>>)
    [] t.k = "sys" -> MapSeq(Take(SysSmp, m), LAMBDA x : <<"sys", x[1], x[2]>>)
    [] t.k = "opt" -> IF m = 1 THEN <<None>> ELSE Append(MapSeq(Samples(t.t, h), Some), None)
    [] t.k = "seq" -> IF m = 1 THEN << <<"seq", <<>>>> >> ELSE
         LET s == Samples(t.t, h) IN Uniq(<< <<"seq", s>>, <<"seq", <<>>>>, <<"seq", Take(s, 1)>>, <<"seq", <<s[1], s[1]>>>>, <<"seq", Reverse(s)>> >>)
    [] t.k = "set" -> IF m = 1 THEN << <<"seq", <<>>>> >> ELSE
         LET s == Samples(t.t, h) IN Uniq(<< <<"seq", SetOf(Take(s, 3))>>, <<"seq", <<>>>>, <<"seq", Take(s, 1)>>, <<"seq", SetOf(s)>> >>)
    [] t.k = "map" -> IF m = 1 THEN << <<"map", <<>>>> >> ELSE
         LET ks == Samples(t.kt, h)
             vs == Samples(t.vt, h)
             pr == [i \in 1..Max2(Len(ks), Len(vs)) |-> <<ks[((i - 1) % Len(ks)) + 1], vs[((i - 1) % Len(vs)) + 1]>>] \o <<>>
         IN Uniq(<< <<"map", MapOf(Take(pr, 2))>>, <<"map", <<>>>>, <<"map", <<pr[1]>>>>, <<"map", MapOf(pr)>> >>)
    [] t.k = "arr" -> IF t.n = 0 THEN << <<"seq", <<>>>> >> ELSE
         LET s == Samples(t.t, h) IN
         Uniq([r \in 1..Len(s) |-> <<"seq", [i \in 1..t.n |-> s[((i + r - 2) % Len(s)) + 1]] \o <<>>>>] \o <<>>)
    [] t.k \in {"tup", "tstruct"} ->
         MapSeq(Take(Vectors([i \in 1..Len(t.ts) |-> Samples(t.ts[i], h)] \o <<>>), 6 * m), LAMBDA vs : <<"tup", vs>>)
    [] t.k = "struct" -> LET fv == FieldSamples(t.fs, m) IN
         MapSeq(Uniq(fv \o (IF m < 4 THEN <<>> ELSE Presence(t.fs, fv[1]))), LAMBDA vs : <<"rec", vs>>)
    [] t.k = "enum" ->
         LET of(i) == LET w == t.vs[i] IN
               IF w.k = "unit" THEN << <<"var", i - 1, <<>>>> >>
               ELSE IF w.k = "tup" THEN MapSeq(Take(Vectors([j \in 1..Len(w.fs) |-> Samples(w.fs[j], Max2(1, h - 1))] \o <<>>), 3 * m), LAMBDA vs : <<"var", i - 1, vs>>)
               ELSE MapSeq(FieldSamples(w.fs, Max2(1, h - 1)), LAMBDA vs : <<"var", i - 1, vs>>)
             N == Len(t.vs)
             some == IF m >= 8 THEN [i \in 1..N |-> i] \o <<>>
                     ELSE IF N > 20 THEN Take(<<257, 256, N, N - 3, 1, N - 1, 129>>, m)
                     ELSE [i \in 1..Min2(N, m) |-> (i % N) + 1] \o <<>>
         IN Uniq(Flat([i \in 1..Len(some) |-> IF tt.k = "ref" THEN of(((i - 1) % N) + 1) ELSE of(some[i])] \o <<>>))
    [] t.k = "proxy" -> Samples(t.t, m)
=============================================================================
