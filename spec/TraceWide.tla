----------------------------- MODULE TraceWide ------------------------------
(***************************************************************************)
(* Recorded runs over wide data.  Two lists of runs are walked side by     *)
(* side, a chunk at a time.                                                *)
(***************************************************************************)
EXTENDS Width, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, exp, pos, bad
vars == <<trc, ln, exp, pos, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

Summary(r) ==
  IF r.ct = "number" /\ r.segs # NumberForm(r.form, r.n)[1] THEN "another number was asked for"
  ELSE IF r.res # Ends(r) THEN "wrong result"
  ELSE IF r.live # 0 THEN "values left"
  ELSE ""
\* a run that ends early is not looked at any further, but there is no value
Whole(r) == Ends(r) = "ok"

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 0 /\ exp = <<>> /\ pos = <<1, 0, 1, 0>>
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""
First == /\ bad = "" /\ ln = 0
         /\ bad' = Summary(Tr) /\ Say(bad')
         /\ exp' = IF bad' = "" /\ Whole(Tr) THEN TLCEval(Runs(Tr)) ELSE exp
         /\ ln' = 1 /\ UNCHANGED <<trc, pos>>

\* i-th expected, j-th recorded run, and how much of them is behind us
Left == exp[pos[1]][4] - pos[2]
Right == Tr.runs[pos[3]][4] - pos[4]
Chunk == IF Left < Right THEN Left ELSE Right
Nth(run, k) == [i \in 1..Len(run[2]) |-> run[2][i] + k * run[3][i]]
Check ==
  LET a == exp[pos[1]] b == Tr.runs[pos[3]] IN
  IF a[1] # b[1] \/ Len(a[2]) # Len(b[2]) THEN "unexpected record"
  ELSE IF Nth(a, pos[2]) # Nth(b, pos[4]) THEN "wrong content"
  ELSE IF Chunk > 1 /\ a[3] # b[3] THEN "wrong content further on" ELSE ""
Over == pos[1] > Len(exp) \/ pos[3] > Len(Tr.runs)
Step == /\ bad = "" /\ ln >= 1 /\ Whole(Tr) /\ ~Over
        /\ bad' = Check /\ Say(bad')
        /\ pos' = <<IF Chunk = Left THEN pos[1] + 1 ELSE pos[1], IF Chunk = Left THEN 0 ELSE pos[2] + Chunk,
                    IF Chunk = Right THEN pos[3] + 1 ELSE pos[3], IF Chunk = Right THEN 0 ELSE pos[4] + Chunk>>
        /\ ln' = ln + 1 /\ UNCHANGED <<trc, exp>>
End == /\ bad = "" /\ ln >= 1 /\ ln < 1000000 /\ (~Whole(Tr) \/ Over)
       /\ bad' = (IF ~Whole(Tr) THEN (IF Tr.ct \notin {"text", "bytes", "number"} /\ Tr.mode \in Typed /\ Tr.runs # <<>> THEN "a value in spite of the failure" ELSE "")
                  ELSE IF pos[1] <= Len(exp) THEN "ended early" ELSE IF pos[3] <= Len(Tr.runs) THEN "more than expected" ELSE "") /\ Say(bad')
       /\ ln' = 1000000 /\ UNCHANGED <<trc, exp, pos>>
Next == First \/ Step \/ End
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
