---------------------------- MODULE TraceBorrow -----------------------------
(* What the compiler made of every program is what Borrow says about it.   *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, bad
Tr == Traces[trc]
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)
Judge == IF Tr.safe \in {"open", Tr.res} THEN "" ELSE IF Tr.safe = "accept" THEN "a safe program is rejected" ELSE "an unsafe program is accepted"

Init == trc \in 1..Len(Traces) /\ ln = 1 /\ bad = ""
Next == ln = 1 /\ ln' = 2 /\ UNCHANGED trc /\ bad' = Judge /\ Say(bad')
Spec == Init /\ [][Next]_<<trc, ln, bad>>
View == <<trc, ln, bad>>
Good == bad = ""
=============================================================================
