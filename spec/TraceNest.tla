----------------------------- MODULE TraceNest ------------------------------
(***************************************************************************)
(* Recorded runs over deeply nested data on a small stack.                 *)
(***************************************************************************)
EXTENDS Nesting, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, nest, bad
vars == <<trc, ln, nest, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* room for noise, far below one frame per level
Slack == 16384

W(r) == IF r.mode = "write" THEN Chars(IF r.leaf = 0 THEN <<>> ELSE IF r.type = "deep" THEN <<49>> ELSE <<110, 117, 108, 108>>) ELSE Words
Logged(r) == r.mode \in {"ser", "serpath", "write"} \/ r.type = "deep"
Full(r) == Total(r.p, r.n, r.leaf = 1, W(r))

\* what the run has to end with
Result(r) ==
  IF r.bad = 1 THEN "EndOfFile"
  ELSE IF r.mode \in {"ser", "serpath"} THEN (IF r.stop >= 0 /\ r.stop <= Full(r) THEN "left" ELSE "ok")
  ELSE IF r.mode = "write" THEN "ok"
  ELSE IF r.mode = "parse" THEN (IF r.stop >= 0 /\ r.stop < Total(r.p, r.n, r.leaf = 1, Chars(<<49>>)) THEN "error" ELSE "ok")
  ELSE IF r.stop >= 0 /\ r.stop < Full(r) THEN "left" ELSE "ok"
\* a leaf that fails in text mode: the error comes before the end
Summary(r) ==
  IF Result(r) = "error" /\ r.res \in {"ok", "left"} THEN "truncated text accepted"
  ELSE IF Result(r) # "error" /\ r.res # Result(r) THEN "wrong result"
  ELSE IF r.late > r.early + Slack THEN "stack used depends on the depth"
  ELSE IF r.value # 0 - 1 /\ r.value # r.n THEN "wrong value"
  ELSE IF r.type \in {"list", "tree", "maps"} /\ r.mode \in {"de", "depath", "parse"} /\ r.res = "ok" /\ r.value = 0 - 1 THEN "no value"
  ELSE IF Logged(r) /\ r.res = "ok" /\ r.count # Full(r) THEN "wrong number of events"
  ELSE ""

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 0
        /\ nest = IF Crashed(Traces[trc]) THEN NStart(0) ELSE NStart(Traces[trc].n)
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

First == /\ bad = "" /\ ln = 0
         /\ bad' = Summary(Tr) /\ Say(bad')
         /\ ln' = 1 /\ UNCHANGED <<trc, nest>>

Check ==
  IF NOver(nest) THEN "more than expected"
  ELSE IF Emits(nest, Tr.p, Tr.n, Tr.leaf = 1, W(Tr)) # Tr.ev[ln] THEN "unexpected event"
  ELSE IF Tr.dp = <<>> THEN ""
  ELSE IF Tr.dp[ln] # (IF Tr.mode \in {"ser", "serpath"} THEN After(nest) ELSE Before(nest)) THEN "wrong depth" ELSE ""
Step == /\ bad = "" /\ ln >= 1 /\ ln <= Len(Tr.ev)
        /\ bad' = Check /\ Say(bad')
        /\ nest' = IF bad' = "" THEN NNext(nest, Tr.p, Tr.n, Tr.leaf = 1, W(Tr)) ELSE nest
        /\ ln' = ln + 1 /\ UNCHANGED trc
Done == /\ bad = "" /\ ln = Len(Tr.ev) + 1 /\ ln > 0
        /\ bad' = (IF Tr.full = 1 /\ Logged(Tr) /\ Tr.res = "ok" /\ ~NOver(nest) THEN "ended early" ELSE "") /\ Say(bad')
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, nest>>
Next == First \/ Step \/ Done
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
