------------------------------- MODULE MC_TimeB -------------------------------
(* Seconds and nanoseconds as they travel in the binary format, at and beyond *)
(* every limit, behind any tag byte, whole or cut short.                      *)
EXTENDS Bin, Emit
VARIABLES ph, kind, tag, secs, nanos, cut
vars == <<ph, kind, tag, secs, nanos, cut>>
SecsVals == {C("0"), C("1"), C("59"), C("255"), C("256"), C("2147483648"), C("4294967295"), C("4294967296"), C("9007199254740993"), C("9223372036854775806"), C("9223372036854775807"), C("9223372036854775808"), C("18446744073709551614"), C("18446744073709551615")}
NanosVals == {C("0"), C("1"), C("255"), C("256"), C("999999"), C("123456789"), C("999999998"), C("999999999"), C("1000000000"), C("1000000001"), C("1999999999"), C("2000000000"), C("2147483648"), C("4294967295")}
Init == ph = "idle" /\ kind = "" /\ tag = 1 /\ secs = C("0") /\ nanos = C("0") /\ cut = 0
Open == ph = "idle" /\ kind' \in {"Duration", "SystemTime"} /\ ph' = "open" /\ UNCHANGED <<tag, secs, nanos, cut>>
Put == ph = "open" /\ secs' \in SecsVals /\ nanos' \in NanosVals /\ ph' = "put" /\ UNCHANGED <<kind, tag, cut>>
Mark == ph = "put" /\ kind = "SystemTime" /\ tag' \in {0, 2, 3, 128, 255} /\ ph' = "marked" /\ UNCHANGED <<kind, secs, nanos, cut>>
Cut == ph = "put" /\ cut' \in 1..13 /\ ph' = "cut" /\ UNCHANGED <<kind, tag, secs, nanos>>
Next == Open \/ Put \/ Mark \/ Cut
Spec == Init /\ [][Next]_vars
T == Roots[RootIx(kind)].t
All == (IF kind = "SystemTime" THEN <<tag>> ELSE <<>>) \o IntBytes(secs, 8) \o IntBytes(nanos, 4)
B == SubSeq(All, 1, Len(All) - Min2(cut, Len(All)))
whole == nanos = C("1000000000")
total == IF whole THEN MulAdd(secs, 1, 1) ELSE secs
Limit == IF kind = "Duration" THEN C("18446744073709551615") ELSE C("9223372036854775807")
Fits == IntLe(nanos, C("1000000000")) /\ IntLe(total, Limit)
Val == <<IF kind = "Duration" THEN "dur" ELSE "sys", total, IF whole THEN <<48>> ELSE nanos>>
Out == DeBin(T, B, 0)
Exact == ph = "put" => IF Fits THEN Out[1] = "ok" /\ Out[2] = Val /\ Out[3] = Len(B) ELSE Out[1] = "err" /\ Out[3] = "range"
Short == ph = "cut" => Out[1] = "err" /\ Out[3] = "len"
Same == ph = "put" /\ Fits /\ ~whole => SerBin(T, Val) = B
Written == ph \in {"put", "marked", "cut"}
Observe == Written => LET d == Out IN
  Emit(<<[o |-> "dec", t |-> RootIx(kind), b |-> B, l |-> 1, x |-> IF d[1] = "err" THEN d ELSE IF d[4] THEN <<"okerr", d[2], d[3]>> ELSE <<"ok", d[2], d[3]>>]>>
     \o (IF ph = "put" /\ Fits THEN <<[o |-> "enc", t |-> RootIx(kind), v |-> Val, b |-> SerBin(T, Val)], [o |-> "rt", t |-> RootIx(kind), v |-> Val, x |-> Val, pre |-> <<9>>, post |-> <<1, 2>>]>> ELSE <<>>))
=============================================================================
