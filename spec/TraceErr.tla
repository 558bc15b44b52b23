------------------------------ MODULE TraceErr ------------------------------
(***************************************************************************)
(* Errors as values: what was put into an error is what it returns.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, bad
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* an error is made of kind, message (code points) and sources, of which the
\* last one counts
Verdict ==
  LET s == Tr.srcs n == Len(s) IN
  IF Tr.kind # Tr.k THEN "wrong kind"
  ELSE IF Tr.pre # Tr.k \o ": " \/ Tr.disp # Tr.msg THEN "wrong display"
  ELSE IF n = 0 /\ Tr.src # <<>> THEN "a source out of nowhere"
  ELSE IF n > 0 /\ Tr.src # <<s[n]>> THEN "wrong source" ELSE ""

Init == trc \in 1..Len(Traces) /\ ln = 1 /\ bad = ""
Next == /\ ln = 1 /\ ln' = 2 /\ UNCHANGED trc
        /\ bad' = (IF Crashed(Tr) THEN "crash" ELSE Verdict) /\ Say(bad')
Spec == Init /\ [][Next]_<<trc, ln, bad>>
View == <<trc, ln, bad>>
Good == bad = ""
=============================================================================
