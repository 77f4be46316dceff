------------------------------- MODULE TR_Slots -------------------------------
(* The life of every element the real decoders were recorded creating: the    *)
(* events of each run, taken one by one, have to be steps of an owner that    *)
(* frees each element once and keeps none.                                    *)
EXTENDS Slots, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES chunk, ix, pos, alive, gone, phase, verdict
vars == <<chunk, ix, pos, alive, gone, phase, verdict>>
Chunks == 64
Init == chunk = 0 /\ ix = 0 /\ pos = 0 /\ alive = {} /\ gone = {} /\ phase = "decode" /\ verdict = ""
Split == chunk = 0 /\ chunk' \in 1..Chunks /\ UNCHANGED <<ix, pos, alive, gone, phase, verdict>>
Pick1 == chunk > 0 /\ ix = 0 /\ \E k \in 1..Len(Log) : k % Chunks = chunk - 1 /\ ix' = k /\ UNCHANGED <<chunk, pos, alive, gone, phase, verdict>>
Ev == Log[ix].ev[pos + 1]
Bad(w) == verdict' = w /\ UNCHANGED <<alive, gone, phase>>
More == ix > 0 /\ verdict = "" /\ pos < Len(Log[ix].ev)
Made == Ev[1] = "m" /\ (IF phase # "decode" \/ Ev[2] \in alive \cup gone THEN Bad("made twice or late") ELSE alive' = alive \cup {Ev[2]} /\ UNCHANGED <<gone, phase, verdict>>)
Dropped == Ev[1] = "d" /\ (IF Ev[2] \notin alive THEN Bad("an element freed that is not alive")
                           ELSE IF phase = "given" THEN Bad("freed while in the caller's hands")
                           ELSE alive' = alive \ {Ev[2]} /\ gone' = gone \cup {Ev[2]} /\ UNCHANGED <<phase, verdict>>)
Wild == Ev[1] = "w" /\ Bad("memory that holds no element was freed")
Ended == Ev[1] = "r" /\ (IF Ev[2] = 0 THEN (IF alive # {} THEN Bad("an element was kept by a decoder that failed") ELSE phase' = "failed" /\ UNCHANGED <<alive, gone, verdict>>)
                         ELSE IF gone # {} THEN Bad("an element was freed by a decoder that succeeded") ELSE phase' = "given" /\ UNCHANGED <<alive, gone, verdict>>)
\* the caller looks at each element in order, then lets go
Given == Ev[1] = "g" /\ (IF phase # "given" \/ Ev[2] \notin alive THEN Bad("the caller was given something else") ELSE UNCHANGED <<alive, gone, phase, verdict>>)
Let_ == Ev[1] = "x" /\ phase' = "end" /\ UNCHANGED <<alive, gone, verdict>>
Step == More /\ pos' = pos + 1 /\ (Made \/ Dropped \/ Wild \/ Ended \/ Given \/ Let_) /\ UNCHANGED <<chunk, ix>>
Finish == ix > 0 /\ verdict = "" /\ pos = Len(Log[ix].ev) /\ verdict' = (IF alive # {} THEN "elements were leaked" ELSE IF phase = "decode" THEN "no end" ELSE IF [i \in 1..Len(SelectSeq(Log[ix].ev, LAMBDA e : e[1] = "g")) |-> i] \o <<>> # MapSeq(SelectSeq(Log[ix].ev, LAMBDA e : e[1] = "g"), LAMBDA e : e[2]) THEN "out of order" ELSE "fine") /\ UNCHANGED <<chunk, ix, pos, alive, gone, phase>>
Next == Split \/ Pick1 \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Judge == verdict \notin {"", "fine"} => PrintT("REJECT " \o ToString(ix) \o " " \o verdict)
=============================================================================
