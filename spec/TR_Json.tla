------------------------------- MODULE TR_Json ------------------------------
(* What the real serializer was recorded writing, one state per record: each  *)
(* text has to be standard JSON that denotes the value.                       *)
(* (No variable may be called like a bound name of an extended module: TLC    *)
(* then stops caching constant definitions.)                                  *)
EXTENDS Rfc8259, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES chunk, ix, entry
vars == <<chunk, ix, entry>>
Chunks == 64
Init == chunk = 0 /\ ix = 0 /\ entry = <<>>
Split == chunk = 0 /\ chunk' \in 1..Chunks /\ UNCHANGED <<ix, entry>>
Step == chunk > 0 /\ ix = 0 /\ \E k \in 1..Len(Log) : k % Chunks = chunk - 1 /\ ix' = k /\ entry' = Log[k] /\ chunk' = chunk
Next == Split \/ Step
Spec == Init /\ [][Next]_vars
Verdict ==
  LET d == Rfc(entry.s) IN
  IF ~d[1] THEN "not RFC 8259" ELSE IF ~Is8259(entry.nums, Roots[entry.t].t, entry.v, d[2]) THEN "does not denote the value" ELSE ""
Judge == ix > 0 => LET x == Verdict IN IF x = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(ix) \o " " \o x)
=============================================================================
