------------------------------- MODULE MCPull -------------------------------
(***************************************************************************)
(* The serialization driver as a closed system: any caller, values of any  *)
(* small shape, one fault at any callback, components dropped whenever the *)
(* rules of ownership allow it.                                            *)
(***************************************************************************)
EXTENDS SerProtocol, Ownership, TLC, CSV, Json, IOUtils

CONSTANTS Depth, Kinds, Wraps, Faults, Lazy, Out

\* shapes of at most that depth
RECURSIVE Shapes(_)
Shapes(d) ==
  IF d = 0 THEN { <<"a">> }
  ELSE LET S == Shapes(d - 1) IN
       { <<"a">> } \cup {<<k>> : k \in {"S", "M", "T"}} \cup {<<k, x>> : k \in {"S", "T"}, x \in S}
                   \cup {<<k, x, y>> : k \in {"S", "M", "T"}, x \in S, y \in S}
RECURSIVE Size(_)
Size(sh) == LET Sub(k) == IF k > Len(sh) THEN 0 ELSE Size(sh[k]) IN 1 + Sub(2) + Sub(3)

CONSTANT MaxSize

KindsAll == {<<"o">>, <<"b">>, <<"o", "b">>, <<"b", "o">>, <<"o", "o", "b">>}
KindsFew == {<<"o">>, <<"b">>, <<"o", "b">>}
KindsOwn == {<<"o">>}

VARIABLES s, own, shape, kinds, wrap, fail, pan, calls, made, hit, n
vars == <<s, own, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

Init ==
  /\ shape \in {x \in Shapes(Depth) : Size(x) <= MaxSize}
  /\ kinds \in Kinds /\ wrap \in Wraps
  /\ \/ fail = -1 /\ pan = 0
     \/ fail \in Faults /\ pan \in {0, 1}
  /\ s = SStart(shape) /\ own = Create(OStart, 0, "b")
  /\ calls = 0 /\ made = 0 /\ hit = FALSE /\ n = 0

InUse(i) == \E k \in 1..Len(s.td) : s.td[k].v = i \/ s.td[k].e = i
Droppable == {i \in 1..Len(own) : CanDrop(own, i) /\ ~InUse(i)}
RECURSIVE DropAll(_)
DropAll(o) == LET D == {i \in 1..Len(o) : CanDrop(o, i) /\ ~InUse(i)} IN
              IF D = {} THEN o ELSE DropAll(Drop(o, CHOOSE i \in D : TRUE))

Ready(o, x) == CASE x[1] = "" -> TRUE
                 [] x[1] = "ser" -> CanRead(o, x[2])
                 [] x[1] = "finish" -> CanFinish(o, x[2])
                 [] OTHER -> CanUse(o, x[2])

Case == [op |-> "pull", shape |-> shape, kinds |-> kinds, wrap |-> wrap, fail |-> fail, panic |-> pan, stop |-> n]
Write == IF Out = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VH_OUT)

Call == /\ s.ph = "idle"
        /\ s' = SBegin(s) /\ n' = n + 1
        /\ UNCHANGED <<own, shape, kinds, wrap, fail, pan, calls, made, hit>>

Callback ==
  LET x == SExpected(s) IN
  /\ x[1] # "" /\ Ready(own, x)
  /\ calls' = calls + 1
  /\ IF calls = fail THEN s' = SFailed(s, IF pan = 1 THEN "panic" ELSE "err") /\ hit' = TRUE
     ELSE s' = SCalled(s) /\ hit' = hit
  /\ own' = IF x[1] = "ser" THEN own ELSE Use(own, x[2])
  /\ UNCHANGED <<shape, kinds, wrap, fail, pan, made, n>>

Created ==
  /\ s.ph \in {"emitter", "child"}
  /\ LET k == IF s.ph = "emitter" THEN "e" ELSE kinds[(made % Len(kinds)) + 1] IN
     /\ own' = Create(own, SParent(s), k)
     /\ s' = SCreated(s, Len(own) + 1)
     /\ made' = IF s.ph = "emitter" THEN made ELSE made + 1
  /\ UNCHANGED <<shape, kinds, wrap, fail, pan, calls, hit, n>>

Event ==
  /\ SEvent(s)[1] # <<"none">>
  /\ s' = SReturned(s)
  /\ UNCHANGED <<own, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

End ==
  /\ SEnds(s)
  /\ s' = [s EXCEPT !.ph = "over", !.td = <<>>]
  /\ UNCHANGED <<own, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

DropOne ==
  /\ IF Lazy THEN \E i \in Droppable : own' = Drop(own, i)
     ELSE Droppable # {} /\ ~Ready(own, SExpected(s)) /\ own' = DropAll(own)
  /\ UNCHANGED <<s, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

Leave ==
  /\ s.ph \in {"idle", "over"} /\ (fail = -1 \/ hit)
  /\ s' = [s EXCEPT !.ph = "left", !.td = <<>>]
  /\ Write
  /\ UNCHANGED <<own, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

Clean == /\ s.ph = "left" /\ ~AllGone(own)
         /\ \E i \in 1..Len(own) : CanDrop(own, i) /\ own' = Drop(own, i)
         /\ UNCHANGED <<s, shape, kinds, wrap, fail, pan, calls, made, hit, n>>

Next == Call \/ Callback \/ Created \/ Event \/ End \/ DropOne \/ Leave \/ Clean
Spec == Init /\ [][Next]_vars

Needed == LET x == SExpected(s) IN x[1] # "" => Has(own, x[2]) /\ (Ready(own, x) \/ Droppable # {})
Cleanable == s.ph = "left" /\ ~AllGone(own) => \E i \in 1..Len(own) : CanDrop(own, i)
\* the depth is the number of containers, all of them there
Opened == \A k \in 1..Len(s.open) : s.ph \in {"left", "over"} \/ Has(own, s.open[k])
Inv == Needed /\ Cleanable /\ Opened
=============================================================================
