-------------------------------- MODULE TR_Tok --------------------------------
(* What the real text serializers were recorded writing, one state per        *)
(* record: token by token what the specification writes for the value (layout *)
(* and trailing commas aside; floats by their bits; collections without an    *)
(* order in any order), and read back as the value.                           *)
EXTENDS TextFmt
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES chunk, ix, entry
vars == <<chunk, ix, entry>>
Chunks == 64
Init == chunk = 0 /\ ix = 0 /\ entry = <<>>
Split == chunk = 0 /\ chunk' \in 1..Chunks /\ UNCHANGED <<ix, entry>>
Step == chunk > 0 /\ ix = 0 /\ \E k \in 1..Len(Log) : k % Chunks = chunk - 1 /\ ix' = k /\ entry' = Log[k] /\ chunk' = chunk
Next == Split \/ Step
Spec == Init /\ [][Next]_vars
Closers == {"}", "]", ")", "eof"}
\* kind and payload, without commas before a closing bracket
Core(K) == LET keep == {i \in 1..Len(K) : ~(K[i][1] = "," /\ i < Len(K) /\ K[i + 1][1] \in Closers)}
               ord == SetToSortSeq(keep, LAMBDA a, b : a < b) IN MapSeq(ord, LAMBDA i : <<K[i][1], K[i][2]>>)
Numeric == {"u64", "i64", "flt"}
BitsOf(l) == {i \in 1..Len(entry.nums) : entry.nums[i][1] = l}
SameTok(a, b) == a = b \/ (a[1] \in Numeric /\ b[1] = "flt" /\ \E i \in BitsOf(a[2]) : \E j \in BitsOf(b[2]) :
                              entry.nums[i][2] = entry.nums[j][2] \/ entry.nums[i][3] = entry.nums[j][3])
Verdict ==
  LET T == Roots[entry.t].t
      K == FTokens(entry.s)
      a == Core(K)
      b == Core(FTokens(FText(T, entry.v)))
      d == FDecode(T, entry.s) IN
  IF K[Len(K)][1] # "eof" THEN "is not made of tokens"
  ELSE IF d[1] # "ok" /\ d[1] # "okerr" THEN "is not read back"
  ELSE IF Len(a) # Len(b) THEN "has " \o ToString(Len(a)) \o " tokens, specified " \o ToString(Len(b))
  ELSE IF Hashy(T, entry.v) THEN ""
  ELSE LET bad == {i \in 1..Len(a) : ~SameTok(a[i], b[i])} IN
       IF bad = {} THEN "" ELSE "differs from what is specified at token " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j)
Judge == ix > 0 => LET x == Verdict IN IF x = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(ix) \o " " \o x)
=============================================================================
