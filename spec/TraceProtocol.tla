---------------------------- MODULE TraceProtocol ---------------------------
(***************************************************************************)
(* Recorded runs of the deserialization driver with scripted sinks: the    *)
(* callbacks, their order, the state they see, and what emit returns.      *)
(***************************************************************************)
EXTENDS DeProtocol, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, pr, gone, bad
vars == <<trc, ln, pr, gone, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ pr = PStart /\ gone = {}
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

\* depth and topmost container, or those before
StateIs(fr, depth, top) == depth = Len(fr) /\ top = TopId(fr)
Short(fr) == SubSeq(fr, 1, Len(fr) - 1)

Result(res) == CASE res = "ok" -> <<"ok", "">>
                 [] res = "err" -> <<"err", "injected">>
                 [] res = "panic" -> <<"panic", "injected">>
                 [] res = "mismatch" -> <<"panic", "own">>

Check(line) ==
  CASE line[1] = "emit" -> IF pr.ph = "idle" THEN "" ELSE "the driver went on"
    [] line[1] = "cb" ->
         IF line[3] \in gone THEN "callback on a dropped sink"
         ELSE IF Expected(pr) # <<line[2], line[3]>> THEN "unexpected callback " \o line[2]
         ELSE IF line[2] = "atom" /\ line[6] # pr.n THEN "wrong atom"
         ELSE IF ~(StateIs(pr.fr, line[4], line[5]) \/ (pr.ph = "end" /\ StateIs(Short(pr.fr), line[4], line[5]))) THEN "wrong depth or descriptor"
         ELSE ""
    [] line[1] = "new" -> IF line[3] = 0 \/ pr.ph = "child" THEN "" ELSE "child without being asked"
    [] line[1] = "drop" -> ""
    [] line[1] = "ret" ->
         IF pr.ph # "ret" THEN "the call returned early"
         ELSE IF <<line[2], line[3]>> # Result(pr.res) THEN "wrong result of the call"
         ELSE IF ~(StateIs(pr.fr, line[4], line[5]) \/ (line[2] # "ok" /\ pr.ev \in {"m", "s"} /\ pr.fr # <<>> /\ StateIs(Short(pr.fr), line[4], line[5]))) THEN "wrong depth or descriptor"
         ELSE ""
    [] line[1] = "leave" -> IF pr.ph \in {"idle", "over"} THEN "" ELSE "left in the middle of a call"
    [] OTHER -> ""

NextP(line) ==
  CASE line[1] = "emit" ->
         \* a null is an absent option, which has no sink of ours
         IF line[2] = "a" /\ line[3] = "null" /\ Tr.wrap \in {"opt", "optbox"} /\ pr.fr = <<>>
         THEN Ret([pr EXCEPT !.ev = "a", !.n = line[3]], "ok")
         ELSE Begin(pr, line[2], line[3])
    [] line[1] = "cb" -> IF line[7] = "ok" THEN Called(pr) ELSE Failed(pr, line[7])
    [] line[1] = "new" -> IF line[3] = 0 THEN pr ELSE Child(pr, line[2])
    [] line[1] = "ret" -> Returned(pr)
    [] line[1] = "leave" -> [pr EXCEPT !.ph = "left"]
    [] OTHER -> pr

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ pr' = IF v = "" THEN NextP(Tr.log[ln]) ELSE pr
           /\ gone' = IF Tr.log[ln][1] = "drop" THEN gone \cup {Tr.log[ln][2]} ELSE gone
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF pr.ph # "left" THEN "log ends early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, pr, gone>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
