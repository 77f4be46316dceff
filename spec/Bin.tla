-------------------------------- MODULE Bin --------------------------------
(* The binary format: encoder, and decoder as a cursor machine over the input.*)
(* A decoder state is an offset; each item either advances it or fails at it. *)
EXTENDS Types

(* ------------------------------- encoder -------------------------------- *)
RECURSIVE SerBin(_, _)
SerFields(fs, vs) == Flat([i \in 1..Len(fs) |->
    IF fs[i].s THEN <<>> ELSE SerBin(fs[i].w, IF fs[i].px = "" THEN vs[i] ELSE Conv(fs[i].px, vs[i]))] \o <<>>)
SerBin(tt, v) ==
  LET t == Res(tt) IN
  CASE t.k = "int" -> IntBytes(v[2], t.b)
    [] t.k = "flt" -> v[2]
    [] t.k = "bool" -> <<v[2]>>
    [] t.k = "unit" -> <<>>
    [] t.k = "str" -> LET u == Utf8(v[2]) IN LE8(Len(u)) \o u
    [] t.k = "dur" -> IntBytes(v[2], 8) \o IntBytes(v[3], 4)
    [] t.k = "sys" -> <<1>> \o IntBytes(v[2], 8) \o IntBytes(v[3], 4)
    [] t.k = "opt" -> IF v = None THEN <<0>> ELSE <<1>> \o SerBin(t.t, v[2])
    [] t.k \in {"seq", "set"} -> LE8(Len(v[2])) \o Flat(MapSeq(v[2], LAMBDA x : SerBin(t.t, x)))
    [] t.k = "arr" -> Flat(MapSeq(v[2], LAMBDA x : SerBin(t.t, x)))
    [] t.k = "map" -> LE8(Len(v[2])) \o Flat(MapSeq(v[2], LAMBDA p : SerBin(t.kt, p[1]) \o SerBin(t.vt, p[2])))
    [] t.k = "tup" -> Flat([i \in 1..Len(t.ts) |-> SerBin(t.ts[i], v[2][i])] \o <<>>)
    [] t.k = "tstruct" -> Flat([i \in 1..Len(t.ts) |-> SerBin(t.ws[i], IF t.px[i] = "" THEN v[2][i] ELSE Conv(t.px[i], v[2][i]))] \o <<>>)
    [] t.k = "struct" -> SerFields(t.fs, v[2])
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         <<v[2] % 256, v[2] \div 256>> \o
         (IF w.k = "rec" THEN SerFields([i \in 1..Len(w.fs) |-> [w.fs[i] EXCEPT !.s = FALSE]] \o <<>>, v[3])
          ELSE Flat([i \in 1..Len(w.fs) |-> SerBin(w.fs[i], v[3][i])] \o <<>>))
    [] t.k = "proxy" -> SerBin(t.p, Conv(t.c, v))

\* floats travel as their IEEE bits; the samples for this format carry bytes
FltBits4 == << <<0,0,192,63>>, <<0,0,0,128>>, <<255,255,127,127>>, <<0,0,192,127>>, <<1,0,0,0>>, <<0,0,128,255>>, <<1,2,3,4>>, <<255,255,255,255>>, <<0,0,0,0>>, <<1,0,128,127>> >>
FltBits8 == << <<0,0,0,0,0,0,248,63>>, <<0,0,0,0,0,0,0,128>>, <<255,255,255,255,255,255,239,127>>, <<0,0,0,0,0,0,248,127>>, <<1,0,0,0,0,0,0,0>>,
               <<0,0,0,0,0,0,240,255>>, <<1,2,3,4,5,6,7,8>>, <<255,255,255,255,255,255,255,255>>, <<0,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,240,127>> >>
\* the same shapes with the float lexemes replaced by bytes
RECURSIVE Bits(_, _)
BitsF(fs, vs) == [i \in 1..Len(fs) |-> Bits(fs[i].t, vs[i])] \o <<>>
BitsT(ts, vs) == [i \in 1..Len(ts) |-> Bits(ts[i], vs[i])] \o <<>>
Bits(tt, v) ==
  LET t == Res(tt) IN
  CASE t.k = "flt" -> LET q == IF t.b = 4 THEN FltBits4 ELSE FltBits8 IN
         IF v[1] = "fltb" THEN v ELSE <<"fltb", q[((IndexOf(v[2], t.smp) - 1) % 10) + 1]>>
    [] t.k = "opt" -> IF v = None THEN v ELSE Some(Bits(t.t, v[2]))
    [] t.k \in {"seq", "set", "arr"} -> <<v[1], MapSeq(v[2], LAMBDA x : Bits(t.t, x))>>
    [] t.k = "map" -> <<"map", MapSeq(v[2], LAMBDA p : <<Bits(t.kt, p[1]), Bits(t.vt, p[2])>>)>>
    [] t.k \in {"tup", "tstruct"} -> <<v[1], BitsT(t.ts, v[2])>>
    [] t.k = "struct" -> <<"rec", BitsF(t.fs, v[2])>>
    [] t.k = "enum" -> LET w == t.vs[v[2] + 1] IN
         <<"var", v[2], IF w.k = "rec" THEN BitsF(w.fs, v[3]) ELSE BitsT(w.fs, v[3])>>
    [] OTHER -> v
BinSamples(t, n) == Uniq(MapSeq(Samples(t, n), LAMBDA v : Bits(t, v)))

(* ------------------------------- decoder -------------------------------- *)
\* <<"ok", value, offset, odd>>: odd = a tag byte other than the canonical ones was accepted
\* <<"err", offset, kind>>     kind: "len" | "range" | "disc" | "big"
\* "big": a collection of zero-width elements with an absurd count: not decided here
BOk(v, o, l) == <<"ok", v, o, l>>
BErr(o, k) == <<"err", o, k>>
Has(B, o, n) == o + n <= Len(B)
Bytes(B, o, n) == SubSeq(B, o + 1, o + n)
MaxDur == C("18446744073709551615")
Giga == C("1000000000")
MkDur(secs, nanos, o, tag) ==
  IF ~IntLe(nanos, Giga) THEN BErr(o, "range")
  ELSE IF nanos = Giga THEN (IF secs = MaxDur THEN BErr(o, "range")
                             ELSE BOk(<<tag, MulAdd(secs, 1, 1), <<48>>>>, o, FALSE))
  ELSE BOk(<<tag, secs, nanos>>, o, FALSE)
\* SystemTime holds at most i64::MAX seconds
MkSys(r) == IF r[1] = "ok" /\ ~IntLe(r[2][2], C("9223372036854775807")) THEN BErr(r[3], "range")
            ELSE IF r[1] = "ok" THEN BOk(<<"sys", r[2][2], r[2][3]>>, r[3], r[4]) ELSE r

RECURSIVE MinW(_)       \* least number of bytes a value of the type occupies
SumW(ts) == FoldLeft(LAMBDA a, x : a + MinW(x), 0, ts)
MinW(tt) ==
  IF tt.k = "ref" THEN 1 ELSE
  CASE tt.k \in {"int", "flt"} -> tt.b
    [] tt.k \in {"bool", "opt", "sys"} -> 1
    [] tt.k = "unit" -> 0
    [] tt.k \in {"str", "seq", "set", "map"} -> 8
    [] tt.k = "dur" -> 12
    [] tt.k = "arr" -> tt.n * MinW(tt.t)
    [] tt.k = "tup" -> SumW(tt.ts)
    [] tt.k = "tstruct" -> SumW(tt.ws)
    [] tt.k = "struct" -> FoldLeft(LAMBDA a, f : IF f.s THEN a ELSE a + MinW(f.w), 0, tt.fs)
    [] tt.k = "enum" -> 2
    [] tt.k = "proxy" -> MinW(tt.p)

RECURSIVE DeBin(_, _, _), DeSeq(_, _, _, _, _, _), DeTup(_, _, _, _, _, _), DePairs(_, _, _, _, _, _, _), DeFlds(_, _, _, _, _, _)
\* n elements of one type
DeSeq(t, B, o, n, acc, l) ==
  IF n = 0 THEN BOk(acc, o, l)
  ELSE LET r == DeBin(t, B, o) IN IF r[1] = "err" THEN r ELSE DeSeq(t, B, r[3], n - 1, Append(acc, r[2]), l \/ r[4])
DeTup(ts, B, o, i, acc, l) ==
  IF i > Len(ts) THEN BOk(acc, o, l)
  ELSE LET r == DeBin(ts[i], B, o) IN IF r[1] = "err" THEN r ELSE DeTup(ts, B, r[3], i + 1, Append(acc, r[2]), l \/ r[4])
DePairs(kt, vt, B, o, n, acc, l) ==
  IF n = 0 THEN BOk(acc, o, l)
  ELSE LET k == DeBin(kt, B, o) IN IF k[1] = "err" THEN k
       ELSE LET v == DeBin(vt, B, k[3]) IN IF v[1] = "err" THEN v
            ELSE DePairs(kt, vt, B, v[3], n - 1, MapIns(acc, k[2], v[2]), l \/ k[4] \/ v[4])
DeFlds(fs, B, o, i, acc, l) ==
  IF i > Len(fs) THEN BOk(acc, o, l)
  ELSE IF fs[i].s THEN DeFlds(fs, B, o, i + 1, Append(acc, fs[i].bv), l)
  ELSE LET r == DeBin(fs[i].w, B, o) IN
       IF r[1] = "err" THEN r
       ELSE DeFlds(fs, B, r[3], i + 1, Append(acc, IF fs[i].px = "" THEN r[2] ELSE Unconv(fs[i].px, r[2])), l \/ r[4])
Wrap(r, tag) == IF r[1] = "err" THEN r ELSE BOk(<<tag, r[2]>>, r[3], r[4])
\* a length prefix, then K(count, offset)
WithLen(B, o, w, K(_, _)) ==
  IF ~Has(B, o, 8) THEN BErr(o, "len")
  ELSE LET n == LenOf(Bytes(B, o, 8)) IN
       IF w = 0 /\ (n < 0 \/ n > 2000) THEN BErr(o, "big")
       ELSE K(IF n < 0 THEN Len(B) + 1 ELSE n, o + 8)
DeBin(tt, B, o) ==
  LET t == Res(tt) IN
  CASE t.k = "int" -> IF ~Has(B, o, t.b) THEN BErr(o, "len")
                      ELSE BOk(<<"int", IF t.sg THEN BytesInt(Bytes(B, o, t.b)) ELSE BytesNat(Bytes(B, o, t.b))>>, o + t.b, FALSE)
    [] t.k = "flt" -> IF ~Has(B, o, t.b) THEN BErr(o, "len") ELSE BOk(<<"fltb", Bytes(B, o, t.b)>>, o + t.b, FALSE)
    [] t.k = "bool" -> IF ~Has(B, o, 1) THEN BErr(o, "len") ELSE BOk(<<"bool", IF B[o + 1] = 0 THEN 0 ELSE 1>>, o + 1, B[o + 1] > 1)
    [] t.k = "unit" -> BOk(Unit, o, FALSE)
    [] t.k = "str" -> WithLen(B, o, 1, LAMBDA n, p :
         IF ~Has(B, p, n) THEN BErr(p, "len")
         ELSE LET u == DecUtf8(Bytes(B, p, n), 1, <<>>) IN
              IF u[1] THEN BOk(<<"str", u[2]>>, p + n, FALSE) ELSE BErr(p, "len"))
    [] t.k = "dur" -> IF ~Has(B, o, 8) THEN BErr(o, "len") ELSE IF ~Has(B, o + 8, 4) THEN BErr(o + 8, "len")
                      ELSE MkDur(BytesNat(Bytes(B, o, 8)), BytesNat(Bytes(B, o + 8, 4)), o + 12, "dur")
    [] t.k = "sys" -> IF ~Has(B, o, 1) THEN BErr(o, "len")
                      ELSE IF B[o + 1] # 1 THEN BOk(<<"sys", <<48>>, <<48>>>>, o + 1, TRUE)
                      ELSE MkSys(DeBin([k |-> "dur"], B, o + 1))
    [] t.k = "opt" -> IF ~Has(B, o, 1) THEN BErr(o, "len")
                      ELSE IF B[o + 1] # 1 THEN BOk(None, o + 1, B[o + 1] # 0)
                      ELSE LET r == DeBin(t.t, B, o + 1) IN IF r[1] = "err" THEN r ELSE BOk(Some(r[2]), r[3], r[4])
    [] t.k = "seq" -> WithLen(B, o, MinW(t.t), LAMBDA n, p : Wrap(DeSeq(t.t, B, p, n, <<>>, FALSE), "seq"))
    [] t.k = "set" -> WithLen(B, o, MinW(t.t), LAMBDA n, p :
         LET r == DeSeq(t.t, B, p, n, <<>>, FALSE) IN IF r[1] = "err" THEN r ELSE BOk(<<"seq", SetOf(r[2])>>, r[3], r[4]))
    [] t.k = "map" -> WithLen(B, o, MinW(t.kt) + MinW(t.vt), LAMBDA n, p : Wrap(DePairs(t.kt, t.vt, B, p, n, <<>>, FALSE), "map"))
    [] t.k = "arr" -> Wrap(DeSeq(t.t, B, o, t.n, <<>>, FALSE), "seq")
    [] t.k = "tup" -> Wrap(DeTup(t.ts, B, o, 1, <<>>, FALSE), "tup")
    [] t.k = "tstruct" -> LET r == DeTup(t.ws, B, o, 1, <<>>, FALSE) IN
         IF r[1] = "err" THEN r
         ELSE BOk(<<"tup", [i \in 1..Len(t.ts) |-> IF t.px[i] = "" THEN r[2][i] ELSE Unconv(t.px[i], r[2][i])] \o <<>>>>, r[3], r[4])
    [] t.k = "struct" -> Wrap(DeFlds(t.fs, B, o, 1, <<>>, FALSE), "rec")
    [] t.k = "enum" ->
         IF ~Has(B, o, 2) THEN BErr(o, "len")
         ELSE LET i == B[o + 1] + 256 * B[o + 2] IN
              IF i >= Len(t.vs) THEN BErr(o, "disc")
              ELSE LET w == t.vs[i + 1]
                       r == IF w.k = "rec" THEN DeFlds(w.fs, B, o + 2, 1, <<>>, FALSE) ELSE DeTup(w.fs, B, o + 2, 1, <<>>, FALSE)
                   IN IF r[1] = "err" THEN r ELSE BOk(<<"var", i, r[2]>>, r[3], r[4])
    [] t.k = "proxy" -> LET r == DeBin(t.p, B, o) IN IF r[1] = "err" THEN r ELSE BOk(Unconv(t.c, r[2]), r[3], r[4])
=============================================================================
