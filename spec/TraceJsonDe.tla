----------------------------- MODULE TraceJsonDe ----------------------------
(***************************************************************************)
(* JSON into typed values.  The events that a recording type received are  *)
(* those the text denotes (JsonParse), and the typed result is what        *)
(* DeMachine makes of these events: its value, its error if it has one     *)
(* before the text goes wrong, or some error if the text goes wrong.       *)
(***************************************************************************)
EXTENDS DeMachine, JsonParse, JsonNum

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, jp, bad
vars == <<trc, ln, jp, bad>>
View == <<trc, ln, jp.m, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ jp = JStart
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Is(e, got) == IF e[1] = "num" THEN NumIs(e, got) ELSE e = got
Agree(evs, got) == Len(got) <= Len(evs) /\ \A k \in 1..Len(got) : Is(evs[k], got[k])

Read == /\ bad = "" /\ jp.m # "done" /\ ln <= Len(Tr.b) /\ jp.m # "err"
        /\ jp' = JStep(jp, Tr.b[ln]) /\ ln' = ln + 1
        /\ UNCHANGED <<trc, bad>>

\* the message of a type mismatch says what was found and expected
Messages == "VH_MESSAGES" \in DOMAIN IOEnv
RECURSIVE RunMsg(_, _)
RunMsg(m, evs) == IF evs = <<>> \/ m.s # "run" THEN ""
                  ELSE LET n == Step(m, evs[1]) IN IF n.s = "err" THEN Message(m, evs[1]) ELSE RunMsg(n, Tail(evs))

\* one result r (and value o) of the typed deserialization
Result(d, m, r, o) ==
  IF r = "skip" THEN ""
  ELSE IF r = "panic" THEN "panic"
  ELSE IF m.s = "err" THEN (IF r # m.e THEN "expected error " \o m.e ELSE "")
  ELSE IF d.m # "accept" THEN (IF r = "ok" THEN "invalid text accepted"
                              ELSE IF Messages /\ r \notin d.why THEN "wrong kind of error" ELSE "")
  ELSE IF m.s # "done" THEN "the recorded events are incomplete"
  ELSE IF r # "ok" THEN "fitting text rejected"
  ELSE IF ~ValEq(Tr.ty, m.v, o[2]) THEN "wrong value" ELSE ""

Verdict(d) ==
  IF ~Agree(d.evs, Tr.ev) \/ (d.m = "accept" /\ Len(d.evs) # Len(Tr.ev)) THEN "wrong events"
  ELSE LET m == Run(Start(Tr.ty), Tr.ev) a == Result(d, m, Tr.r, Tr.o)
       IN IF a # "" THEN a
          ELSE IF Messages /\ RunMsg(Start(Tr.ty), Tr.ev) \notin {"", Tr.m} THEN "wrong error message"
          ELSE Result(d, m, Tr.r2, Tr.o2)

Finish == /\ bad = "" /\ jp.m # "done" /\ (jp.m = "err" \/ ln > Len(Tr.b))
          /\ bad' = Verdict(JEnd(jp)) /\ Say(bad')
          /\ jp' = [jp EXCEPT !.m = "done"]
          /\ UNCHANGED <<trc, ln>>

Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
