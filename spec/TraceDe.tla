------------------------------ MODULE TraceDe -------------------------------
(***************************************************************************)
(* Every recorded run of the deserializer is a behaviour of DeMachine: one *)
(* step per emitted event with the result and depth the driver reported,   *)
(* then the value that was left in the output slot.                        *)
(***************************************************************************)
EXTENDS DeMachine

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, mach, bad
vars == <<trc, ln, mach, bad>>
View == <<trc, ln, mach.s, bad>>

Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1
        /\ mach = IF Crashed(Traces[trc]) THEN Start(1) ELSE Start(Traces[trc].ty)
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Depth(x) == Len(x.st)

\* what sinks say about themselves is only looked at where that is the question
Descriptors == "VH_DESCRIPTORS" \in DOMAIN IOEnv
Messages == "VH_MESSAGES" \in DOMAIN IOEnv

\* the message of an error says what is wrong
MessageOk(pre, e, x) ==
  IF x.e = "MissingField" THEN Len(Tr.q) = 1 /\ Tr.q[1] \in Missing(pre.st[Len(pre.st)].ty, <<>>, pre.st[Len(pre.st)].asg)
  ELSE Message(pre, e) \in {"", Tr.m}

Verdict(pre, e, x, r, d, top, calls) ==
  CASE x.s = "err" -> IF r # x.e THEN "expected error " \o x.e
                      ELSE IF Messages /\ ~MessageOk(pre, e, x) THEN "wrong error message" ELSE ""
    [] x.s = "panic" -> IF r = "panic" THEN "" ELSE "expected a panic"
    [] OTHER -> IF r # "ok" THEN "expected success"
                ELSE IF d # Depth(x) THEN "wrong depth"
                ELSE IF ~SameBag(Calls(pre, e), calls) THEN "wrong calls of defaults"
                ELSE IF Descriptors /\ top # TopDesc(x) THEN "wrong topmost descriptor" ELSE ""

\* what the sink that was driven says about itself (of optional bags it may only be their name)
AboutOk == "about" \in DOMAIN Tr =>
  /\ Tr.about[2] = SinkDescs[Tr.ty]
  /\ Tr.about[1] = Expectings[Tr.ty] \/ (Types[Strips[Tr.ty][1]].k = "bag" /\ Types[Tr.ty].k # "bag" /\ Strips[Tr.ty][2] > 0 /\ Tr.about[1] = SinkDescs[Tr.ty][1])

\* one event was emitted
Emit ==
  /\ bad = "" /\ mach.s = "run" /\ ln <= Len(Tr.r)
  /\ LET n == Step(mach, Tr.ev[ln]) v == Verdict(mach, Tr.ev[ln], n, Tr.r[ln], Tr.d[ln], Tr.t[ln], Tr.c[ln])
     IN /\ mach' = n /\ bad' = v /\ Say(v)
  /\ ln' = ln + 1 /\ UNCHANGED trc

\* the driver is gone, the slot is read
Finish ==
  /\ bad = "" /\ mach.s # "end" /\ (mach.s # "run" \/ ln > Len(Tr.r))
  /\ LET v == IF ~AboutOk THEN "the sink describes itself wrongly"
              ELSE IF mach.s = "done"
                THEN IF Len(Tr.r) # Len(Tr.ev) THEN "stopped early"
                     ELSE IF Tr.o[1] # "v" THEN "no value"
                     ELSE IF ValEq(Tr.ty, mach.v, Tr.o[2]) THEN "" ELSE "wrong value"
                ELSE IF mach.s = "run" /\ Len(Tr.r) # Len(Tr.ev) THEN "stopped early"
                ELSE IF mach.s # "run" /\ Len(Tr.r) # ln - 1 THEN "went on after an error" ELSE ""
     IN bad' = v /\ Say(v)
  /\ mach' = [mach EXCEPT !.s = "end"]
  /\ UNCHANGED <<trc, ln>>

Next == Emit \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
