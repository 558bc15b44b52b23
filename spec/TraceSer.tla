------------------------------ MODULE TraceSer ------------------------------
(***************************************************************************)
(* Every recorded serialization is a behaviour of SerMachine: each line of *)
(* the log (events, hooks, errors, end) is the next observation.           *)
(***************************************************************************)
EXTENDS SerMachine

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, mach, bad
vars == <<trc, ln, mach, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1
        /\ mach = IF Crashed(Traces[trc]) THEN SerStart(1, <<"null">>) ELSE Norm(SerStart(Traces[trc].ty, Traces[trc].v))
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

PathOk(p, got) == Tr.path = 0 \/ p = Unknown \/ p = got

\* depth and topmost descriptor after an event
StateOk(x, line) ==
  IF line[4] # Len(x.open) THEN "wrong depth"
  ELSE IF line[5] # (IF x.open = <<>> THEN <<>> ELSE x.open[Len(x.open)]) THEN "wrong topmost descriptor"
  ELSE ""

Check(line) ==
  LET o == Obs(mach) IN
  CASE line[1] \in {"B", "F"} ->
         IF o[1] # line[1] \/ o[2] # line[2] THEN "unexpected hook " \o line[1]
         ELSE IF ~PathOk(o[3], line[3]) THEN "wrong path in a hook" ELSE ""
    [] line[1] = "E" ->
         IF o[1] # "E" THEN "unexpected event"
         ELSE IF ~EvEq(o[2], line[2]) THEN "wrong event"
         ELSE IF o[3] # line[3] THEN "wrong descriptor"
         ELSE IF ~PathOk(o[4], line[6]) THEN "wrong path"
         ELSE StateOk([open |-> IF line[2] \in {<<"M">>, <<"S">>} THEN Append(mach.open, o[3])
                                ELSE IF line[2] \in {<<"m">>, <<"s">>} THEN SubSeq(mach.open, 1, Len(mach.open) - 1)
                                ELSE mach.open], line)
    [] line[1] = "inj" -> IF Tr.fail = 0 - 1 \/ ln = 1 \/ Tr.log[ln - 1][1] \notin {"B", "F"} THEN "unexpected fault" ELSE ""
    [] line[1] = "end" -> IF mach.s = "end" THEN "" ELSE "ended early"
    [] line[1] = "err" -> IF mach.s = "err" /\ mach.e = line[2] THEN "" ELSE "unexpected error"
    [] line[1] = "panic" -> "panic"
    [] line[1] = "more" -> "went on after the end"
    [] line[1] = "stop" -> ""
    [] line[1] = "state" -> IF mach.s = "stopped" THEN (IF line[2] = Len(mach.open) THEN "" ELSE "wrong depth")
                            ELSE IF mach.s = "err" THEN ""
                            ELSE IF mach.s # "end" THEN "not at the end"
                            ELSE IF line[2] # 0 THEN "depth left at the end"
                            ELSE IF line[3] # <<>> THEN "path left at the end" ELSE ""
    [] line[1] = "dropped" -> IF mach.s = "run" THEN "not at the end" ELSE ""

NextM(line) ==
  CASE line[1] \in {"B", "F", "E"} -> After(mach)
    [] line[1] = "inj" -> [mach EXCEPT !.s = "err", !.e = "EndOfFile"]
    [] line[1] = "stop" -> [mach EXCEPT !.s = "stopped"]
    [] OTHER -> mach

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln])
           IN /\ bad' = v /\ Say(v)
              /\ mach' = IF v = "" THEN NextM(Tr.log[ln]) ELSE mach
        /\ ln' = ln + 1 /\ UNCHANGED trc

\* the log must reach the end of the machine
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF Tr.log[Len(Tr.log)][1] = "dropped" THEN "" ELSE "log ends early") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, mach>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
