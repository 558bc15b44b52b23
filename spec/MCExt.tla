------------------------------- MODULE MCExt --------------------------------
(***************************************************************************)
(* Histories of two drivers and a few types.  The model also keeps what    *)
(* was written last per driver and type, which is what a read must give;   *)
(* all histories of the length are written as cases.                       *)
(***************************************************************************)
EXTENDS Extensions, TLC, CSV, Json, IOUtils

CONSTANTS N, Drivers, KindsX, TypesU, Ops, Wheres, Out

VARIABLES x, hist, last, gens
vars == <<x, hist, last, gens>>

Init == x = {} /\ hist = <<>> /\ last = <<>> /\ gens = <<>>

\* last: sequence of <<driver, type, value>> written since the driver was opened
Lookup(d, t) == LET W == {k \in 1..Len(last) : last[k][1] = d /\ last[k][2] = t} IN
                IF W = {} THEN DefaultOf[t] ELSE last[CHOOSE k \in W : \A j \in W : j <= k][3]

Write == IF Out # "" /\ Len(hist') = N THEN CSVWrite("%1$s", <<ToJson([op |-> "ext", steps |-> hist'])>>, IOEnv.VH_OUT) ELSE TRUE
Add(s) == hist' = Append(hist, s) /\ Write

Open(d, k) == /\ Len(hist) < N /\ ~IsOpen(x, d)
              \* the first driver comes first
              /\ \A e \in Drivers : e < d => IsOpen(x, e) \/ \E j \in 1..Len(hist) : hist[j][2] = e
              /\ x' = XOpen(x, d) /\ Add(<<"open", d, k>>) /\ UNCHANGED <<last, gens>>
Close(d) == /\ Len(hist) < N /\ IsOpen(x, d)
            /\ x' = XClose(x, d) /\ Add(<<"close", d>>)
            /\ last' = SelectSeq(last, LAMBDA e : e[1] # d) /\ UNCHANGED gens
Access(d, o, t, w) ==
  /\ Len(hist) < N /\ IsOpen(x, d)
  /\ x' = IF o = "set" THEN XWrite(x, d, t, 1000 + Len(hist)) ELSE IF o = "nest" THEN x ELSE XTouch(x, d, t)
  /\ last' = IF o = "set" THEN Append(last, <<d, t, 1000 + Len(hist)>>) ELSE last
  /\ Add(<<"acc", d, << <<o, t>> >>, w>>) /\ UNCHANGED gens
Next == \/ \E d \in Drivers : Close(d) \/ \E k \in KindsX : Open(d, k)
        \/ \E d \in Drivers, o \in Ops, t \in TypesU, w \in Wheres : Access(d, o, t, w)
Spec == Init /\ [][Next]_vars

ReadsLast == \A e \in x : \A t \in TypesU : XRead(x, e[1], t) = Lookup(e[1], t)
\* closing one driver leaves the others alone
Private == \A e \in x : \A f \in x : e[1] # f[1] => XRead(XClose(x, e[1]), f[1], 1) = XRead(x, f[1], 1)
Inv == ReadsLast /\ Private
=============================================================================
