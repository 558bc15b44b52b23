------------------------------ MODULE MCDrive -------------------------------
(***************************************************************************)
(* The deserialization driver as a closed system: any caller, any sinks    *)
(* (kinds of children, one fault at any callback), children dropped at any *)
(* moment at which the rules of ownership allow it.  Checks that protocol  *)
(* and ownership fit together, and writes every history as a case.         *)
(***************************************************************************)
EXTENDS DeProtocol, Ownership, TLC, CSV, Json, IOUtils

CONSTANTS N,        \* events
          Kinds,    \* patterns of kinds of children
          Wraps,    \* what is around the root sink
          Faults,   \* callbacks that may fail
          Lazy,     \* drop at any moment instead of as soon as possible
          Out       \* write cases

KindsAll == {<<"o">>, <<"b">>, <<"n">>, <<"o", "b">>, <<"b", "o">>, <<"o", "n">>, <<"o", "o", "b">>, <<"n", "b", "o">>}
KindsMore == KindsAll \cup {<<"b", "b", "o">>, <<"o", "b", "b">>, <<"b", "n">>, <<"o", "n", "b">>, <<"b", "o", "n">>, <<"n", "o">>}
KindsOwn == {<<"o">>}

VARIABLES p, own, sc, kinds, wrap, fail, pan, calls, made, hit
vars == <<p, own, sc, kinds, wrap, fail, pan, calls, made, hit>>

Init ==
  /\ kinds \in Kinds /\ wrap \in Wraps
  /\ \/ fail = -1 /\ pan = 0
     \/ fail \in Faults /\ pan \in {0, 1}
  /\ (wrap # "own" => kinds = <<"o">> \/ kinds = <<"b", "o">>)
  /\ p = PStart /\ own = Create(OStart, 0, "o") /\ sc = <<>>
  /\ calls = 0 /\ made = 0 /\ hit = FALSE

\* a complete value: whether the driver takes another one is not specified
Complete == p.fr = <<>> /\ sc # <<>> /\ p.ph = "idle"
\* the key has no value yet: whether the map may end is not specified
Halfway == p.fr # <<>> /\ PTop(p).map /\ ~PTop(p).key

\* things nobody needs any more
InUse(i) == \/ \E k \in 1..Len(p.fr) : p.fr[k].id = i
            \/ i = p.root
            \/ p.ph \in {"give", "fin"} /\ i = p.cur
Droppable == {i \in 1..Len(own) : CanDrop(own, i) /\ ~InUse(i)}
RECURSIVE DropAll(_)
DropAll(o) == LET D == {i \in 1..Len(o) : CanDrop(o, i) /\ ~InUse(i)} IN
              IF D = {} THEN o ELSE DropAll(Drop(o, CHOOSE i \in D : TRUE))
Ready(o, i) == i = 0 \/ CanUse(o, i)

Case == [op |-> "drive", ev |-> sc, kinds |-> kinds, wrap |-> wrap, fail |-> fail, panic |-> pan]
Write == IF Out = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VH_OUT)

Emit(e) ==
  /\ p.ph = "idle" /\ ~Complete /\ Len(sc) < N
  /\ ~(e = "m" /\ Halfway)
  /\ p' = Begin(p, e, "") /\ sc' = Append(sc, e)
  /\ UNCHANGED <<own, kinds, wrap, fail, pan, calls, made, hit>>

Callback ==
  LET x == Expected(p) IN
  /\ x[1] # "" /\ Ready(own, x[2])
  /\ calls' = calls + 1
  /\ IF calls = fail THEN p' = Failed(p, IF pan = 1 THEN "panic" ELSE "err") /\ hit' = TRUE
     ELSE p' = Called(p) /\ hit' = hit
  /\ own' = Use(own, x[2])
  /\ UNCHANGED <<sc, kinds, wrap, fail, pan, made>>

NewChild ==
  /\ p.ph = "child"
  /\ LET k == kinds[(made % Len(kinds)) + 1] id == IF k = "n" THEN 0 ELSE Len(own) + 1 IN
     /\ p' = Child(p, id)
     /\ own' = IF k = "n" THEN own ELSE Create(own, PTop(p).id, k)
  /\ made' = made + 1
  /\ UNCHANGED <<sc, kinds, wrap, fail, pan, calls, hit>>

Return ==
  /\ p.ph = "ret"
  /\ p' = Returned(p)
  /\ UNCHANGED <<own, sc, kinds, wrap, fail, pan, calls, made, hit>>

DropOne ==
  /\ IF Lazy THEN \E i \in Droppable : own' = Drop(own, i)
     ELSE Droppable # {} /\ ~Ready(own, Expected(p)[2]) /\ own' = DropAll(own)
  /\ UNCHANGED <<p, sc, kinds, wrap, fail, pan, calls, made, hit>>

\* the driver is dropped, possibly in the middle of the data
Leave ==
  /\ p.ph \in {"idle", "over"} /\ (fail = -1 \/ hit)
  /\ p' = [p EXCEPT !.ph = "left", !.fr = <<>>, !.root = 0]
  /\ Write
  /\ UNCHANGED <<own, sc, kinds, wrap, fail, pan, calls, made, hit>>

\* then everything goes
Clean == /\ p.ph = "left" /\ ~AllGone(own)
         /\ \E i \in 1..Len(own) : CanDrop(own, i) /\ own' = Drop(own, i)
         /\ UNCHANGED <<p, sc, kinds, wrap, fail, pan, calls, made, hit>>

Next == (\E e \in Events : Emit(e)) \/ Callback \/ NewChild \/ Return \/ DropOne \/ Leave \/ Clean
Spec == Init /\ [][Next]_vars

\* what is needed is there, and nothing blocks it for good
Needed == LET x == Expected(p) IN x[1] # "" /\ x[2] # 0 => Has(own, x[2]) /\ (CanUse(own, x[2]) \/ Droppable # {})
\* open containers form a chain of borrows, nothing in between is gone
Chain == \A k \in 1..Len(p.fr) : p.fr[k].id # 0 => Has(own, p.fr[k].id)
\* at the end everything can be dropped
Cleanable == p.ph = "left" /\ ~AllGone(own) => \E i \in 1..Len(own) : CanDrop(own, i)
TypeOk == p.ph \in {"idle", "ask", "child", "give", "fin", "end", "ret", "over", "left"}
Inv == TypeOk /\ Needed /\ Chain /\ Cleanable
=============================================================================
