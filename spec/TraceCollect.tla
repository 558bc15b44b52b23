---------------------------- MODULE TraceCollect ----------------------------
(***************************************************************************)
(* Recorded lifetimes of the values a deserialization creates: each is     *)
(* dropped once, and none is left but those in the result.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, live, made, out, bad
vars == <<trc, ln, live, made, out, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 1 /\ live = {} /\ made = 0 /\ out = FALSE
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Check(line) ==
  CASE line[1] = "new" -> IF line[2] = made + 1 THEN "" ELSE "not fresh"
    [] line[1] = "drop" -> IF line[2] \in live THEN "" ELSE IF line[2] \in 1..made THEN "dropped twice" ELSE "dropped but never created"
    [] line[1] = "out" ->
         LET ids == {line[3][k] : k \in 1..Len(line[3])} IN
         IF Cardinality(ids) # Len(line[3]) THEN "a value is in the result twice"
         ELSE IF ids \ live # {} THEN "a dropped value is in the result"
         ELSE IF live \ ids # {} THEN "leaked" ELSE ""
    [] line[1] = "gone" -> IF live = {} THEN "" ELSE "leaked"
    [] line[1] = "ret" -> IF line[2] = "panic" THEN "panic" ELSE ""
    [] OTHER -> ""

Step == /\ bad = "" /\ ln <= Len(Tr.log)
        /\ LET line == Tr.log[ln] v == Check(line) IN
           /\ bad' = v /\ Say(v)
           /\ live' = CASE line[1] = "new" -> live \cup {line[2]} [] line[1] = "drop" -> live \ {line[2]} [] OTHER -> live
           /\ made' = IF line[1] = "new" THEN line[2] ELSE made
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, out>>
Done == /\ bad = "" /\ ln = Len(Tr.log) + 1
        /\ bad' = (IF Tr.log[Len(Tr.log)][1] = "gone" THEN "" ELSE "log ends early") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, live, made, out>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
