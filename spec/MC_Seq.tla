-------------------------------- MODULE MC_Seq --------------------------------
(* A writer appends values of any types to one buffer that may already hold   *)
(* something; a reader with one cursor takes them out again in order.         *)
EXTENDS Bin, Emit
VARIABLES ph, pre, items, buf, cur, out
vars == <<ph, pre, items, buf, cur, out>>
All == RootsOf("b", Tags)
Already == << <<>>, <<1, 0, 0, 0, 0, 0, 0, 0, 65>>, <<255>>, Rep(0, 40) >>
Init == ph = "idle" /\ pre = <<>> /\ items = <<>> /\ buf = <<>> /\ cur = 0 /\ out = <<>>
\* the first value: of every type; the following ones: seeded types and values
More == LET n == Len(items) k0 == items[n][1] * 31 + Len(buf) IN
  {Nth(All, Rnd(k0, n, j)) : j \in 1..Pick(3, 7)}
Put(i, x) == /\ items' = Append(items, <<i, x>>) /\ buf' = buf \o SerBin(Roots[i].t, x)
Start == /\ ph = "idle" /\ ph' = "writing" /\ UNCHANGED <<cur, out, items>>
         /\ \E p \in Range(Already) : pre' = p /\ buf' = p
First == /\ ph = "writing" /\ items = <<>> /\ \E i \in All : \E x \in Range(BinSamples(Roots[i].t, Pick(2, 6))) : Put(i, x)
         /\ UNCHANGED <<ph, pre, cur, out>>
Further == /\ ph = "writing" /\ items # <<>> /\ Len(items) < Pick(3, 5)
           /\ \E m \in More : LET S == BinSamples(Roots[m].t, 6) IN Put(m, S[1 + (Rnd(m, Len(buf), 3) % Len(S))])
           /\ UNCHANGED <<ph, pre, cur, out>>
Turn == /\ ph = "writing" /\ items # <<>> /\ ph' = "reading" /\ cur' = Len(pre) /\ UNCHANGED <<pre, items, buf, out>>
Get == /\ ph = "reading" /\ Len(out) < Len(items)
       /\ LET d == DeBin(Roots[items[Len(out) + 1][1]].t, buf, cur) IN
            IF d[1] = "ok" THEN out' = Append(out, d[2]) /\ cur' = d[3] /\ ph' = ph ELSE out' = out /\ cur' = cur /\ ph' = "lost"
       /\ UNCHANGED <<pre, items, buf>>
Next == Start \/ First \/ Further \/ Turn \/ Get
Spec == Init /\ [][Next]_vars
Whole == ph = "reading" /\ Len(out) = Len(items)
\* nothing written earlier is touched, values come out in the order they went in, the cursor ends where the writer ended
PrefixKept == ph # "idle" => Take(buf, Len(pre)) = pre
NeverLost == ph # "lost"
Fifo == ph = "reading" => \A k \in 1..Len(out) : out[k] = Norm("b", Roots[items[k][1]].t, items[k][2])
Exact == Whole => cur = Len(buf)
Between == ph = "reading" => cur >= Len(pre) /\ cur <= Len(buf)
Observe == Whole => Emit(<<[o |-> "seq", pre |-> pre, vs |-> [k \in 1..Len(items) |->
   [t |-> items[k][1], v |-> items[k][2], x |-> out[k], h |-> IF Hashy(Roots[items[k][1]].t, items[k][2]) THEN 1 ELSE 0]] \o <<>>]>>)
=============================================================================
