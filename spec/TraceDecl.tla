----------------------------- MODULE TraceDecl ------------------------------
(* What the compiler made of every declaration (or program) is what the    *)
(* specification says about it.                                            *)
EXTENDS Decl, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, bad
Tr == Traces[trc]
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)
Judge == LET v == Verdict(Tr.d) IN
         IF v = "open" \/ v = Tr.res THEN "" ELSE IF v = "accept" THEN "a valid declaration is rejected" ELSE "an invalid declaration is accepted"

Init == trc \in 1..Len(Traces) /\ ln = 1 /\ bad = ""
Next == ln = 1 /\ ln' = 2 /\ UNCHANGED trc /\ bad' = Judge /\ Say(bad')
Spec == Init /\ [][Next]_<<trc, ln, bad>>
View == <<trc, ln, bad>>
Good == bad = ""
=============================================================================
