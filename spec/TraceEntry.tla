----------------------------- MODULE TraceEntry -----------------------------
(***************************************************************************)
(* Recorded runs of scripted sinks below an entry point that emits all of  *)
(* the events by itself (the JSON deserializer).  The events the text      *)
(* denotes are known; the calls of emit are not observed.                  *)
(***************************************************************************)
EXTENDS DeProtocol, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, run, gone, bad
vars == <<trc, ln, run, gone, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* run.p is the protocol, run.k the number of events whose emit call began
Absent(t, r) == r.p.fr = <<>> /\ t.wrap = "opt" /\ t.evs[r.k + 1] = <<"a", "null">>
RECURSIVE Auto(_, _)
Auto(t, r) ==
  CASE r.p.ph = "ret" /\ r.p.res = "ok" -> Auto(t, [r EXCEPT !.p = Returned(@)])
    [] r.p.ph = "idle" /\ r.k < Len(t.evs) ->
         Auto(t, IF Absent(t, r) THEN [r EXCEPT !.k = @ + 1]
                 ELSE [p |-> Begin(r.p, t.evs[r.k + 1][1], t.evs[r.k + 1][2]), k |-> r.k + 1])
    [] OTHER -> r

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ gone = {}
        /\ run = IF Crashed(Traces[trc]) THEN [p |-> PStart, k |-> 0] ELSE Auto(Traces[trc], [p |-> PStart, k |-> 0])
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

StateIs(fr, depth, top) == depth = Len(fr) /\ top = TopId(fr)
Short(fr) == SubSeq(fr, 1, Len(fr) - 1)

\* everything was emitted
Over == run.p.ph = "idle" /\ run.k = Len(Tr.evs)
Result == IF Over THEN <<"ok", "">> ELSE IF run.p.ph = "ret" THEN <<run.p.res, "injected">> ELSE <<"early", "">>

Check(line) ==
  LET pr == run.p IN
  CASE line[1] = "cb" ->
         IF line[3] \in gone THEN "callback on a dropped sink"
         ELSE IF Expected(pr) # <<line[2], line[3]>> THEN "unexpected callback " \o line[2]
         ELSE IF line[2] = "atom" /\ line[6] # pr.n THEN "wrong atom"
         ELSE IF ~(StateIs(pr.fr, line[4], line[5]) \/ (pr.ph = "end" /\ StateIs(Short(pr.fr), line[4], line[5]))) THEN "wrong depth or descriptor"
         ELSE ""
    [] line[1] = "new" -> IF line[3] = 0 \/ pr.ph = "child" THEN "" ELSE "child without being asked"
    [] line[1] = "done" -> IF Result[1] = "early" THEN "ended early"
                           ELSE IF <<line[2], line[3]>> # Result THEN "wrong result"
                           ELSE ""
    [] OTHER -> ""

NextR(line) ==
  CASE line[1] = "cb" -> Auto(Tr, [run EXCEPT !.p = IF line[7] = "ok" THEN Called(@) ELSE Failed(@, line[7])])
    [] line[1] = "new" -> IF line[3] = 0 THEN run ELSE Auto(Tr, [run EXCEPT !.p = Child(@, line[2])])
    [] line[1] = "done" -> [run EXCEPT !.p.ph = "left"]
    [] OTHER -> run

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ run' = IF v = "" THEN TLCEval(NextR(Tr.log[ln])) ELSE run
        /\ gone' = IF Tr.log[ln][1] = "drop" THEN gone \cup {Tr.log[ln][2]} ELSE gone
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF run.p.ph # "left" THEN "log ends early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, run, gone>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
