---------------------------- MODULE TracePathDe -----------------------------
(***************************************************************************)
(* Where events arrive while they are fed into a path tracking sink.  One  *)
(* frame per open container: how many elements it had and, for maps, the   *)
(* segment of the last key.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, st, bad
vars == <<trc, ln, st, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)

\* hid: below a key, where the path is not specified
Frame(map, hid) == [map |-> map, n |-> 0, key |-> TRUE, seg |-> <<"U">>, hid |-> hid]

SegOf(a) == CASE a[1] = "str" -> <<"K", a[2]>>
              [] a[1] = "u" -> <<"I", a[2]>>
              [] a[1] = "i" /\ a[2] = 0 -> <<"I", a[3]>>
              [] OTHER -> <<"U">>

Top == st[Len(st)]
AtKey == st # <<>> /\ Top.map /\ Top.key
Hidden == st # <<>> /\ (Top.hid \/ AtKey)
Path == [j \in 1..Len(st) |-> IF st[j].map THEN st[j].seg ELSE <<"I", DigitsOf(st[j].n)>>]

\* a value (or key) of the innermost container is complete
Done(s, seg) ==
  IF s = <<>> THEN s
  ELSE LET f == s[Len(s)] IN
       [s EXCEPT ![Len(s)] = IF ~f.map THEN [f EXCEPT !.n = @ + 1]
                             ELSE IF f.key THEN [f EXCEPT !.key = FALSE, !.seg = seg]
                             ELSE [f EXCEPT !.key = TRUE, !.n = @ + 1]]

After(e) ==
  CASE e[1] = "M" -> Append(st, Frame(TRUE, Hidden))
    [] e[1] = "S" -> Append(st, Frame(FALSE, Hidden))
    [] e[1] \in {"m", "s"} -> Done(SubSeq(st, 1, Len(st) - 1), <<"U">>)
    [] OTHER -> Done(st, SegOf(e))

IsAtom(e) == e[1] \notin {"M", "S", "m", "s"}

\* what the wrapped sink was given
Check(e, got, r) ==
  IF r # "ok" THEN "an event was not accepted"
  ELSE IF Len(got) # 1 THEN "not exactly one callback"
  ELSE IF ~IsAtom(e) THEN (IF got[1] = e THEN "" ELSE "wrong event forwarded")
  ELSE IF got[1][1] # e THEN "wrong atom forwarded"
  ELSE IF ~Hidden /\ got[1][2] # Path THEN "wrong path"
  ELSE ""

Init == trc \in 1..Len(Traces) /\ ln = 1 /\ st = <<>> /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

Step == /\ bad = "" /\ ln <= Len(Tr.r)
        /\ LET v == Check(Tr.ev[ln], Tr.log[ln], Tr.r[ln]) IN bad' = v /\ Say(v)
        /\ st' = After(Tr.ev[ln])
        /\ ln' = ln + 1 /\ UNCHANGED trc
Finish == /\ bad = "" /\ ln = Len(Tr.r) + 1
          /\ LET v == IF (Tr.out = 1) # (st = <<>> /\ Tr.r # <<>>) THEN "wrong completion" ELSE ""
             IN bad' = v /\ Say(v)
          /\ ln' = ln + 1 /\ UNCHANGED <<trc, st>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
