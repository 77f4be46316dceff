-------------------------------- MODULE Util --------------------------------
(* Text is a sequence of Unicode code points, binary data a sequence of       *)
(* bytes, a mathematical integer a canonical decimal (code points), because   *)
(* TLC integers have 32 bits.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTab == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c)]
C(s) == [i \in 1..Len(s) |-> CodeTab[SubSeq(s, i, i)]] \o <<>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sel(c, a, b) == IF c THEN a ELSE b
Rep(x, n) == [i \in 1..n |-> x] \o <<>>
RECURSIVE RepSeq(_, _)
RepSeq(s, n) == IF n = 0 THEN <<>> ELSE s \o RepSeq(s, n - 1)
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])] \o <<>>
Flat(ss) == FlattenSeq(ss)
\* some order of a sequence: as it is, reversed, rotated
Perm(s, o) == CASE o = 0 -> s [] o = 1 -> Reverse(s) [] OTHER -> LET n == Len(s) IN [i \in 1..n |-> s[((i - 1 + o) % n) + 1]] \o <<>>
\* s with the separator between its parts
RECURSIVE Join(_, _)
Join(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE IF Len(parts) = 1 THEN parts[1]
    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexOf(x, s) == IF InSeq(x, s) THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..i-1 : s[j] # x ELSE 0

(* ------------------------------ characters ------------------------------ *)
At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
NL == 10
IsWs(c) == c \in {10, 13, 9, 32}
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(n) == <<HexDigit(n \div 4096), HexDigit((n \div 256) % 16), HexDigit((n \div 16) % 16), HexDigit(n % 16)>>
IsScalar(c) == (c >= 0 /\ c < 55296) \/ (c > 57343 /\ c <= 1114111)

RECURSIVE SkipWs(_, _), SkipDigits(_, _), SkipAlpha(_, _), SkipIdent(_, _), FindNlOr0(_, _)
SkipWs(t, p) == IF p <= Len(t) /\ IsWs(t[p]) THEN SkipWs(t, p + 1) ELSE p
SkipDigits(t, p) == IF p <= Len(t) /\ IsDigit(t[p]) THEN SkipDigits(t, p + 1) ELSE p
SkipAlpha(t, p) == IF p <= Len(t) /\ IsAlpha(t[p]) THEN SkipAlpha(t, p + 1) ELSE p
SkipIdent(t, p) == IF p <= Len(t) /\ (IsAlpha(t[p]) \/ IsDigit(t[p])) THEN SkipIdent(t, p + 1) ELSE p
FindNlOr0(t, p) == IF At(t, p) \in {0, 10} THEN p ELSE FindNlOr0(t, p + 1)

\* Location after the reader has looked at character p: <<line, col>>, zero-based lines.
LastNl(t, m) == LET S == {i \in 1..m : t[i] = NL} IN
                IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Loc(t, p) == LET m == Min2(p, Len(t)) IN
             << Cardinality({i \in 1..m : t[i] = NL}), m - LastNl(t, m) >>

(* --------------------------- decimal integers --------------------------- *)
\* digits: sequence of code points 48..57
RECURSIVE StripZ(_)
StripZ(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZ(Tail(d)) ELSE d
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
DigLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b)
IsNeg(v) == v[1] = 45
Mag(v) == IF IsNeg(v) THEN Tail(v) ELSE v
Canon(neg, digits) == LET s == StripZ(digits) IN IF neg /\ s # <<48>> THEN <<45>> \o s ELSE s
IntLe(a, b) == IF IsNeg(a) THEN (IF IsNeg(b) THEN DigLe(Mag(b), Mag(a)) ELSE TRUE)
               ELSE (IF IsNeg(b) THEN FALSE ELSE DigLe(a, b))

\* one TLC integer (small) <-> decimal
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE DecNat(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o DecNat(-n) ELSE DecNat(n)
NatOf(d) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)

\* magnitude of b bits as little-endian bytes and back
DivMod256(d) == \* <<quotient digits, remainder>>
    LET r == FoldLeft(LAMBDA a, c : LET x == a[2] * 10 + (c - 48)
                                    IN <<Append(a[1], 48 + x \div 256), x % 256>>,
                      <<<<>>, 0>>, d)
    IN <<StripZ(r[1]), r[2]>>
RECURSIVE LEBytes(_, _)
LEBytes(d, n) == IF n = 0 THEN <<>>
                 ELSE LET qr == DivMod256(d) IN <<qr[2]>> \o LEBytes(qr[1], n - 1)
RECURSIVE NegBytesC(_, _)
NegBytesC(b, carry) == IF b = <<>> THEN <<>>
    ELSE LET x == (255 - b[1]) + carry IN <<x % 256>> \o NegBytesC(Tail(b), x \div 256)
NegBytes(b) == NegBytesC(b, 1)
IntBytes(v, n) == IF IsNeg(v) THEN NegBytes(LEBytes(Mag(v), n)) ELSE LEBytes(v, n)
MulAdd(d, m, a) == \* digits * m + a, from the least significant digit
    LET r == FoldLeft(LAMBDA acc, c : LET x == (c - 48) * m + acc[2]
                                      IN <<<<48 + (x % 10)>> \o acc[1], x \div 10>>,
                      <<<<>>, a>>, Reverse(d))
    IN StripZ((IF r[2] > 0 THEN DecNat(r[2]) ELSE <<48>>) \o r[1])
BytesNat(b) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 256, x), <<48>>, Reverse(b))
BytesInt(b) == IF b[Len(b)] >= 128 THEN <<45>> \o BytesNat(NegBytes(b)) ELSE BytesNat(b)
\* a length field: a TLC integer, or -1 when it exceeds every input we consider
LenOf(b) == IF \A i \in 4..Len(b) : b[i] = 0 THEN b[1] + 256 * b[2] + 65536 * b[3] ELSE -1
LE8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

(* -------------------------------- UTF-8 --------------------------------- *)
EncChar(c) == IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(cps) == Flat(MapSeq(cps, EncChar))
IsCont(b) == b >= 128 /\ b < 192
\* <<ok, cps>>
RECURSIVE DecUtf8(_, _, _)
DecUtf8(b, p, acc) ==
  IF p > Len(b) THEN <<TRUE, acc>>
  ELSE LET x == b[p]
           y(i) == IF p + i <= Len(b) THEN b[p + i] ELSE 0
       IN IF x < 128 THEN DecUtf8(b, p + 1, Append(acc, x))
          ELSE IF x >= 194 /\ x < 224 /\ IsCont(y(1))
               THEN DecUtf8(b, p + 2, Append(acc, (x - 192) * 64 + y(1) - 128))
          ELSE IF x >= 224 /\ x < 240 /\ IsCont(y(1)) /\ IsCont(y(2))
               THEN LET c == (x - 224) * 4096 + (y(1) - 128) * 64 + (y(2) - 128)
                    IN IF c < 2048 \/ ~IsScalar(c) THEN <<FALSE, <<>>>> ELSE DecUtf8(b, p + 3, Append(acc, c))
          ELSE IF x >= 240 /\ x < 245 /\ IsCont(y(1)) /\ IsCont(y(2)) /\ IsCont(y(3))
               THEN LET c == (x - 240) * 262144 + (y(1) - 128) * 4096 + (y(2) - 128) * 64 + (y(3) - 128)
                    IN IF c < 65536 \/ ~IsScalar(c) THEN <<FALSE, <<>>>> ELSE DecUtf8(b, p + 4, Append(acc, c))
          ELSE <<FALSE, <<>>>>
=============================================================================
