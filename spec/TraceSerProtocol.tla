-------------------------- MODULE TraceSerProtocol --------------------------
(***************************************************************************)
(* Recorded runs of the serialization driver with scripted values.  After  *)
(* the end comes the end again.  What a driver does for a caller that goes *)
(* on after an error is open, but it finishes no value again.              *)
(***************************************************************************)
EXTENDS SerProtocol, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

\* fin: the values that were finished
VARIABLES trc, ln, pr, fin, bad
vars == <<trc, ln, pr, fin, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ fin = {}
        /\ pr = IF Crashed(Traces[trc]) THEN SStart(<<"a">>) ELSE SStart(Traces[trc].shape)
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

\* an option has a descriptor of its own
D(v) == IF v = 1 /\ Tr.wrap = "opt" THEN -2 ELSE v

Finishes(line) == line[1] = "cb" /\ line[2] = "finish"
Check(line) ==
  CASE Finishes(line) /\ line[3] \in fin -> "finished again"
    [] pr.ph = "over" /\ line[1] # "leave" -> ""
    [] line[1] = "new" -> IF line[3] = 0 THEN ""
                          ELSE IF pr.ph \notin {"emitter", "child"} THEN "new component without being asked"
                          ELSE IF line[3] # SParent(pr) THEN "new component of another one" ELSE ""
    [] line[1] = "next" -> IF pr.ph = "idle" THEN "" ELSE "the driver went on"
    [] line[1] = "cb" ->
         IF SExpected(pr) # <<line[2], line[3]>> THEN "unexpected callback " \o line[2]
         ELSE IF line[4] # Len(pr.open) \/ line[5] # D(OpenTop(pr)) THEN "wrong depth or descriptor in a callback"
         ELSE ""
    [] line[1] = "ev" ->
         LET e == SEvent(pr) q == SReturned(pr) IN
         IF e[1] # line[2] THEN "wrong event"
         ELSE IF D(e[2]) # line[3] THEN "wrong descriptor"
         ELSE IF line[4] # Len(q.open) \/ line[5] # D(OpenTop(q)) THEN "wrong depth or topmost descriptor"
         ELSE ""
    [] line[1] = "drop" -> ""
    [] line[1] = "ret" -> IF ~SEnds(pr) THEN "ended early"
                          ELSE IF SResult(pr) # line[2] THEN "wrong result"
                          ELSE IF line[2] # "end" /\ line[3] # "injected" THEN "not the fault"
                          ELSE IF line[2] = "end" /\ line[4] # 0 THEN "depth left at the end" ELSE ""
    [] line[1] = "leave" -> IF pr.ph \in {"idle", "over"} THEN "" ELSE "left in the middle of a call"
    [] line[1] = "gone" -> ""

NextP(line) ==
  CASE pr.ph = "over" /\ line[1] # "leave" -> pr
    [] line[1] = "next" -> SBegin(pr)
    [] line[1] = "new" /\ line[3] # 0 -> SCreated(pr, line[2])
    [] line[1] = "cb" -> IF line[7] = "ok" THEN SCalled(pr) ELSE SFailed(pr, line[7])
    [] line[1] = "ev" -> SReturned(pr)
    [] line[1] = "ret" -> [pr EXCEPT !.ph = IF line[2] = "end" THEN "idle" ELSE "over"]
    [] line[1] = "leave" -> [pr EXCEPT !.ph = "left"]
    [] OTHER -> pr

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ pr' = IF v = "" THEN NextP(Tr.log[ln]) ELSE pr
        /\ fin' = IF Finishes(Tr.log[ln]) THEN fin \cup {Tr.log[ln][3]} ELSE fin
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF pr.ph # "left" THEN "log ends early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, pr, fin>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
