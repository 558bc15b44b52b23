------------------------------ MODULE TraceOwn ------------------------------
(***************************************************************************)
(* Recorded lifetimes of scripted sinks, values and emitters.              *)
(***************************************************************************)
EXTENDS Ownership, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

\* full: the sinks whose value is in their slot
VARIABLES trc, ln, own, full, bad
vars == <<trc, ln, own, full, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ own = OStart /\ full = {}
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Gone == 0 - 3   \* a descriptor that was dropped
\* the slots which nobody but the caller empties
Ours == "wrap" \in DOMAIN Tr /\ Tr.wrap \in {"none", "owned", "left", "bytes", "path"}
SlotIs(line) == Len(line) < 3 \/ line[3] = 0 - 1 \/ ~Ours \/ line[3] = (IF line[2] \in full THEN 1 ELSE 0)

Check(line) ==
  CASE line[1] \in {"cb", "ret", "ev"} /\ line[5] = Gone -> "descriptor that was replaced"
    [] line[1] = "new" -> IF line[4] = "n" \/ CanCreate(own, line[2], line[3]) THEN "" ELSE "lent by something that is gone"
    [] line[1] = "cb" /\ line[2] = "ser" -> IF CanRead(own, line[3]) THEN "" ELSE "used after it was dropped"
    [] line[1] = "cb" /\ line[2] = "finish" -> IF CanFinish(own, line[3]) THEN ""
                                               ELSE IF Has(own, line[3]) THEN "finished while something borrows from it" ELSE "finished after it was dropped"
    [] line[1] = "cb" -> IF CanUse(own, line[3]) THEN ""
                         ELSE IF Has(own, line[3]) THEN "used while something borrows from it" ELSE "used after it was dropped"
    \* the data of an event belongs to the value
    [] line[1] = "ev" -> IF line[2][1] = "a" /\ ~Has(own, line[2][2]) THEN "event of a dropped value"
                         ELSE IF line[3] > 0 /\ ~Has(own, line[3]) THEN "descriptor of a dropped value"
                         ELSE IF line[5] > 0 /\ ~Has(own, line[5]) THEN "topmost descriptor of a dropped value" ELSE ""
    [] line[1] = "ret" -> IF line[5] > 0 /\ ~Has(own, line[5]) THEN "topmost descriptor of a dropped sink" ELSE ""
    [] line[1] = "drop" -> IF ~SlotIs(line) THEN "slot changed while a sink borrows it"
                           ELSE IF CanDrop(own, line[2]) THEN ""
                           ELSE IF Has(own, line[2]) THEN "dropped while something borrows from it" ELSE "dropped twice"
    [] line[1] = "gone" -> IF AllGone(own) THEN "" ELSE "leaked"
    [] OTHER -> ""

NextO(line) ==
  CASE line[1] = "new" -> IF line[4] = "n" THEN own ELSE Create(own, line[3], line[4])
    [] line[1] = "cb" /\ line[2] # "ser" -> Use(own, line[3])
    [] line[1] = "drop" -> Drop(own, line[2])
    [] OTHER -> own

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ own' = IF v = "" THEN TLCEval(NextO(Tr.log[ln])) ELSE own
           /\ full' = CASE Tr.log[ln][1] = "put" -> full \cup {Tr.log[ln][2]}
                        [] Tr.log[ln][1] = "take" -> full \ {Tr.log[ln][2]}
                        [] OTHER -> full
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF Tr.log[Len(Tr.log)][1] = "gone" THEN "" ELSE "log ends early") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, own, full>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
