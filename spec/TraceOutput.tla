----------------------------- MODULE TraceOutput ----------------------------
(***************************************************************************)
(* Recorded runs of scripted values below an entry point that pulls all of *)
(* the events by itself (the JSON serializer, debug formatting).           *)
(***************************************************************************)
EXTENDS SerProtocol, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, pr, bad
vars == <<trc, ln, pr, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* events are taken as soon as they are there
RECURSIVE Auto(_)
Auto(s) ==
  CASE s.ph = "idle" -> Auto(SBegin(s))
    [] s.ph \in {"start", "ev"} -> Auto(SReturned(s))
    [] s.ph = "run" /\ s.td # <<>> /\ STop(s).t = "key" -> Auto(SReturned(s))
    [] OTHER -> s

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1
        /\ pr = Auto(IF Crashed(Traces[trc]) THEN SStart(<<"a">>) ELSE SStart(Traces[trc].shape))
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

D(v) == IF v = 1 /\ Tr.wrap = "opt" THEN -2 ELSE v

Check(line) ==
  CASE line[1] = "new" -> IF line[3] = 0 THEN ""
                          ELSE IF pr.ph \notin {"emitter", "child"} THEN "new component without being asked"
                          ELSE IF line[3] # SParent(pr) THEN "new component of another one" ELSE ""
    [] line[1] = "cb" ->
         IF SExpected(pr) # <<line[2], line[3]>> THEN "unexpected callback " \o line[2]
         ELSE IF line[4] # Len(pr.open) \/ line[5] # D(OpenTop(pr)) THEN "wrong depth or descriptor in a callback"
         ELSE ""
    [] line[1] = "done" -> IF ~SEnds(pr) THEN "ended early"
                           ELSE IF <<line[2], line[3]>> # (IF SResult(pr) = "end" THEN <<"ok", "">> ELSE <<SResult(pr), "injected">>) THEN "wrong result"
                           ELSE ""
    [] OTHER -> ""

NextP(line) ==
  CASE line[1] = "new" /\ line[3] # 0 -> Auto(SCreated(pr, line[2]))
    [] line[1] = "cb" -> IF line[7] = "ok" THEN Auto(SCalled(pr)) ELSE SFailed(pr, line[7])
    [] line[1] = "done" -> [pr EXCEPT !.ph = "left"]
    [] OTHER -> pr

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ pr' = IF v = "" THEN TLCEval(NextP(Tr.log[ln])) ELSE pr
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF pr.ph # "left" THEN "log ends early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, pr>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
