------------------------------ MODULE TraceExt ------------------------------
EXTENDS Extensions, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, ext, bad
vars == <<trc, ln, ext, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ ext = {}
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Check(line) ==
  CASE line[1] = "acc" -> IF XRead(ext, line[2], line[4]) = line[5] THEN "" ELSE "wrong value read by " \o line[7]
    \* the values live exactly as long as their driver
    [] line[1] = "close" -> IF line[3] = -1 \/ line[3] = XCount(XClose(ext, line[2])) THEN "" ELSE "values that outlive their driver or are gone early"
    [] line[1] = "panic" -> "panic"
    [] OTHER -> ""
NextX(line) ==
  CASE line[1] = "open" -> XOpen(ext, line[2])
    [] line[1] = "close" -> XClose(ext, line[2])
    [] line[1] = "acc" -> IF line[3] = "set" THEN XWrite(ext, line[2], line[4], line[6]) ELSE XTouch(ext, line[2], line[4])
    [] OTHER -> ext

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET v == Check(Tr.log[ln]) IN
           /\ bad' = v /\ Say(v)
           /\ ext' = IF v = "" THEN TLCEval(NextX(Tr.log[ln])) ELSE ext
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF Tr.log[Len(Tr.log)][1] # "over" THEN "log ends early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, ext>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
