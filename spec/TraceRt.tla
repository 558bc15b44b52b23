------------------------------ MODULE TraceRt -------------------------------
(***************************************************************************)
(* Round trips: the events of a value are those SerMachine produces, and   *)
(* DeMachine and the implementation make the value of them again.          *)
(***************************************************************************)
EXTENDS SerMachine, DeMachine, Equality

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, mach, bad
vars == <<trc, ln, mach, bad>>
View == <<trc, ln, mach.s, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1
        /\ mach = IF Crashed(Traces[trc]) THEN Start(1) ELSE Start(Traces[trc].ty)
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

\* the events are those of the value
Emitted ==
  /\ bad = "" /\ ln = 1
  /\ LET e == EventsOf(Tr.ty, Tr.v)
         v == IF Tr.st # "ok" THEN (IF e[1] = "err" THEN "" ELSE "serialization failed")
              ELSE IF e[1] # "end" THEN "serialization should fail"
              ELSE IF ~EvsEq(e[2], Tr.ev) THEN "wrong events" ELSE ""
     IN bad' = v /\ Say(v)
  /\ ln' = 2 /\ UNCHANGED <<trc, mach>>

\* and they are all accepted, one by one
Feed ==
  /\ bad = "" /\ ln > 1 /\ mach.s = "run" /\ ln - 1 <= Len(Tr.r)
  /\ LET n == Step(mach, Tr.ev[ln - 1])
         v == CASE n.s = "err" -> IF Tr.r[ln - 1] = n.e THEN "" ELSE "expected an error"
                [] n.s = "panic" -> "unbalanced events"
                [] OTHER -> IF Tr.r[ln - 1] # "ok" THEN "own events rejected"
                            ELSE IF Tr.d[ln - 1] # Len(n.st) THEN "wrong depth" ELSE ""
     IN mach' = n /\ bad' = v /\ Say(v)
  /\ ln' = ln + 1 /\ UNCHANGED trc

Finish ==
  /\ bad = "" /\ ln > 1 /\ mach.s # "end" /\ (mach.s # "run" \/ ln - 1 > Len(Tr.r))
  /\ LET v == IF Lossless[Tr.ty] /\ Tr.st = "ok" /\ mach.s # "done" THEN "not a complete value"
              ELSE IF mach.s = "done"
                THEN IF Tr.o[1] # "v" THEN "no value"
                     ELSE IF ~ValEq(Tr.ty, mach.v, Tr.o[2]) THEN "not the value of the events"
                     ELSE IF Lossless[Tr.ty] /\ ~Same(Tr.ty, Tr.v, Tr.o[2]) THEN "not the same value"
                     ELSE ""
              ELSE ""
     IN bad' = v /\ Say(v)
  /\ mach' = [mach EXCEPT !.s = "end"]
  /\ UNCHANGED <<trc, ln>>

Next == Emitted \/ Feed \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
