----------------------------- MODULE TraceJson ------------------------------
(***************************************************************************)
(* Every recorded run of the JSON deserializer: the result is that of the  *)
(* machine JsonParse and the events are those the text denotes.            *)
(***************************************************************************)
EXTENDS JsonParse, JsonNum, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, jp, bad
vars == <<trc, ln, jp, bad>>
View == <<trc, ln, jp.m, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ jp = JStart
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Is(e, got) == IF e[1] = "num" THEN NumIs(e, got) ELSE e = got

\* everything the implementation delivered is what the text says
Agree(evs, got) == Len(got) <= Len(evs) /\ \A k \in 1..Len(got) : Is(evs[k], got[k])

Read == /\ bad = "" /\ jp.m # "done" /\ ln <= Len(Tr.b) /\ jp.m # "err"
        /\ jp' = JStep(jp, Tr.b[ln]) /\ ln' = ln + 1
        /\ UNCHANGED <<trc, bad>>

Kinds == "VH_MESSAGES" \in DOMAIN IOEnv

Verdict(d) ==
  IF Tr.r = "panic" \/ Tr.r2 = "panic" THEN "panic"
  ELSE IF d.m = "accept" THEN
    IF Tr.r # "ok" THEN "valid text rejected"
    ELSE IF Tr.r2 \notin {"ok", "skip"} THEN "valid text rejected by from_str"
    ELSE IF ~Agree(d.evs, Tr.ev) \/ Len(d.evs) # Len(Tr.ev) THEN "wrong events"
    ELSE ""
  ELSE IF Tr.r = "ok" THEN "invalid text accepted"
  ELSE IF Tr.r2 = "ok" THEN "invalid text accepted by from_str"
  ELSE IF ~Agree(d.evs, Tr.ev) THEN "wrong events before the error"
  ELSE IF Kinds /\ (Tr.r \notin d.why \/ Tr.r2 \notin d.why \cup {"skip"}) THEN "wrong kind of error"
  ELSE ""

Finish == /\ bad = "" /\ jp.m # "done" /\ (jp.m = "err" \/ ln > Len(Tr.b))
          /\ bad' = Verdict(JEnd(jp)) /\ Say(bad')
          /\ jp' = [jp EXCEPT !.m = "done"]
          /\ UNCHANGED <<trc, ln>>

Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
