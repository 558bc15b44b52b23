----------------------------- MODULE TraceDebug -----------------------------
(***************************************************************************)
(* Recorded debug formatting: all forms of the text, repeated and with     *)
(* flags, and what writers that fail at some byte get to see.              *)
(***************************************************************************)
EXTENDS SerMachine, DebugFmt

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, exp, bad
vars == <<trc, ln, exp, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 0 /\ exp = <<>>
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

\* the events are those of the value
SameEvents(r) ==
  r.ty = 0 \/ LET e == EventsOf(r.ty, r.v) IN
              e[1] = "end" /\ Len(e[2]) = Len(r.ev) /\ \A k \in 1..Len(r.ev) : EvEq(e[2][k], r.ev[k][1])

Begin == /\ bad = "" /\ ln = 0
         /\ bad' = (IF ~SameEvents(Tr) THEN "wrong events" ELSE IF ~Whole(Tr.ev) THEN "not one value" ELSE "") /\ Say(bad')
         /\ exp' = IF bad' = "" THEN TLCEval(<<Text(Tr.ev, FALSE), Text(Tr.ev, TRUE)>>) ELSE exp
         /\ ln' = 1 /\ UNCHANGED trc

Form(x) == exp[IF x = "c" THEN 1 ELSE 2]
CheckText(x) == IF x[1] = "panic" THEN "panic"
                ELSE IF x[2] # Form(x[1]) THEN (IF x[1] = "c" THEN "wrong compact text" ELSE "wrong pretty text") ELSE ""
\* form, room, full length, result, written, is it a prefix, fails only once
CheckFail(x) == IF x[4] = "panic" THEN "panic with a failing writer"
                ELSE IF (x[4] = "ok") # (x[2] >= x[3]) THEN "failure of the writer not returned"
                ELSE IF x[6] # 1 \/ x[5] > x[2] THEN "not a prefix was written"
                ELSE IF x[4] = "ok" /\ x[5] # x[3] THEN "not everything was written" ELSE ""
Fails(r) == {k \in 1..Len(r.fails) : CheckFail(r.fails[k]) # ""}

Step == /\ bad = "" /\ ln \in 1..Len(Tr.texts)
        /\ bad' = CheckText(Tr.texts[ln]) /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, exp>>
\* with flags: the notation of the atoms has them too, all else is the same
Swap(evs, ts) == [k \in 1..Len(evs) |-> <<evs[k][1], evs[k][2], ts[k]>>]
CheckAlt(a, evs) == IF Len(a[2]) # Len(evs) THEN "other events the next time"
                    ELSE IF a[3] # Text(Swap(evs, a[2]), a[1] = "p") THEN "wrong text with flags" ELSE ""
Alts == /\ bad = "" /\ ln \in (Len(Tr.texts) + 1)..(Len(Tr.texts) + Len(Tr.alts))
        /\ bad' = CheckAlt(Tr.alts[ln - Len(Tr.texts)], Tr.ev) /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, exp>>
Done == /\ bad = "" /\ ln = Len(Tr.texts) + Len(Tr.alts) + 1
        /\ bad' = (IF Fails(Tr) # {} THEN CheckFail(Tr.fails[CHOOSE k \in Fails(Tr) : TRUE]) ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, exp>>
Next == Begin \/ Step \/ Alts \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
