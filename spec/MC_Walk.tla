------------------------------- MODULE MC_Walk -------------------------------
(* A writer appends values, single tokens and gaps to one text; a reader with *)
(* one token of lookahead takes them out again in order.                      *)
EXTENDS TextFmt
VARIABLES ph, items, text, at, out
vars == <<ph, items, text, at, out>>
\* what may stand between values, and what the reader calls it
TokPool == << <<C(","), "Comma">>, <<C(":"), "Colon">>, <<C("["), "BlockOpen">>, <<C("]"), "BlockClose">>, <<C("{"), "CurlyOpen">>, <<C("}"), "CurlyClose">>,
              <<C("\"q,\\n\""), "Str">>, <<C("-7"), "I64">>, <<C("7"), "U64">>, <<C("1.5"), "F64">>, <<C("true"), "Bool">> >>
           \o (IF IsJson THEN << <<C("null"), "Null">> >> ELSE << <<C("None"), "Ident">>, <<C("("), "ParenOpen">>, <<C(")"), "ParenClose">>, <<C("'c'"), "Char">> >>)
\* items: <<"val", root, value, gap, text>> or <<"tok", name, <<>>, gap, text>>; a gap is never empty
Gap1(k) == Gaps[2 + (k % (Len(Gaps) - 1))]
Lay(k) == 10 + (k % 9)
Init == ph = "idle" /\ items = <<>> /\ text = <<>> /\ at = 0 /\ out = <<>>
Add(it) == items' = Append(items, it) /\ text' = text \o it[4] \o it[5] /\ UNCHANGED <<at, out>>
ValItem(i, x, k) == <<"val", i, x, Gap1(k), FRender(FTree(Roots[i].t, x), Lay(k), 0, 0, k % 2)>>
First == /\ ph = "idle" /\ ph' = "writing" /\ \E i \in FRoots : LET S == Samples(Roots[i].t, Pick(4, 10)) IN \E k \in 1..Len(S) : Add(ValItem(i, S[k], i + k))
Salt == Len(text) * 7 + Len(items)
Token == /\ ph = "writing" /\ Len(items) < Pick(4, 6) /\ \E j \in 1..Pick(1, 3) :
            LET p == TokPool[1 + (Rnd(Salt, j, 17) % Len(TokPool))] IN Add(<<"tok", p[2], <<>>, Gap1(Salt + j), p[1]>>)
         /\ UNCHANGED ph
Value == /\ ph = "writing" /\ Len(items) < Pick(4, 6) /\ \E j \in 1..Pick(1, 3) :
            LET i == Nth(FRoots, Rnd(Salt, j, 5)) S == Samples(Roots[i].t, 5) IN Add(ValItem(i, S[1 + (Rnd(Salt, j, i) % Len(S))], Salt + j))
         /\ UNCHANGED ph
K == FTokens(text)
Turn == /\ ph = "writing" /\ ph' = "reading" /\ at' = 1 /\ UNCHANGED <<items, text, out>>
Step(i) == LET it == items[Len(out) + 1] IN
  IF it[1] = "tok" THEN LET a == Adv(K, i, <<"tok">>) IN a
  ELSE IF IsJson THEN Dec_(Roots[it[2]].t, K, i) ELSE RDec(Roots[it[2]].t, K, i)
Get == /\ ph = "reading" /\ Len(out) < Len(items)
       /\ LET s == Step(at) IN IF Failed(s) THEN ph' = "lost" /\ out' = out /\ at' = at ELSE ph' = ph /\ out' = Append(out, s[2]) /\ at' = s[3]
       /\ UNCHANGED <<items, text>>
Next == First \/ Token \/ Value \/ Turn \/ Get
Spec == Init /\ [][Next]_vars
Finished == ph = "reading" /\ Len(out) = Len(items)
NeverLost == ph # "lost"
Fifo == ph = "reading" => \A k \in 1..Len(out) : items[k][1] = "val" => out[k] = FNorm(Roots[items[k][2]].t, items[k][3])
AtEnd == Finished => K[at][1] = "eof"
\* a value is read the same whatever follows it
Alone == Finished /\ Len(items) > 1 => LET it == items[1] IN it[1] = "val" => LET d == FDecode(Roots[it[2]].t, it[5]) IN d[1] \in {"ok", "okerr"} /\ d[2] = out[1]
Steps(real) == [k \in 1..Len(items) |-> LET it == items[k] IN
   IF it[1] = "tok" THEN [tok |-> it[2], lit |-> it[4] \o it[5]]
   ELSE IF real THEN [t |-> it[2], lit |-> it[4], v |-> it[3], x |-> out[k], d |-> k - 1] ELSE [t |-> it[2], x |-> out[k]]] \o <<>>
\* appended to what was there: the same text as alone
Before_ == << C("{\"k\":"), <<34, 233, 128512, 10>>, <<10, 10>>, C("[1,") >>
Apps == LET it == items[1] IN
  IF Len(items) > 1 \/ Hashy(Roots[it[2]].t, it[3]) THEN <<>>
  ELSE [j \in 1..Len(Before_) |-> [o |-> "app", t |-> it[2], v |-> it[3], pre |-> Before_[j], d |-> IF IsJson THEN j - 1 ELSE 0]] \o <<>>
Observe == Finished => Emit(<<[o |-> "walk", s |-> text, w |-> Steps(FALSE)], [o |-> "walk", w |-> Steps(TRUE)]>> \o Apps)
=============================================================================
