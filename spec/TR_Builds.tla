------------------------------- MODULE TR_Builds -------------------------------
(* Judges what several builds of the crate answered to the same questions.    *)
(* One record per block of questions: r is <<[b: build, h: digest of the      *)
(* words of its answers]>>.  An answer is a function of the question.         *)
EXTENDS Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES block, asked, answer, verdict
vars == <<block, asked, answer, verdict>>
Init == block \in 1..Len(Trace) /\ asked = 0 /\ answer = <<>> /\ verdict = ""
Rec == Trace[block].r
\* the first build gives the answer, every other repeats it
Ask == asked < Len(Rec) /\ verdict = "" /\ asked' = asked + 1 /\ UNCHANGED block
       /\ LET a == Rec[asked + 1] IN
          IF answer = <<>> THEN answer' = <<a.h, a.b>> /\ UNCHANGED verdict
          ELSE /\ UNCHANGED answer
               /\ verdict' = IF a.h = answer[1] THEN "" ELSE "builds " \o answer[2] \o " and " \o a.b \o " answer differently"
Next == Ask
Spec == Init /\ [][Next]_vars
Judge == verdict # "" => PrintT("REJECT " \o ToString(block) \o " " \o verdict)
=============================================================================
