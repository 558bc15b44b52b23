----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* Things that are lent: own[i] is thing number i with the thing it        *)
(* borrows from (0: none), how it is held and whether it is still there.   *)
(*   o  owned by the driver, borrows exclusively from its parent           *)
(*   e  an emitter: owned by the driver, borrows from its value            *)
(*   b  borrowed: part of its parent, gone when the parent is used again   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Thing(par, kind) == [par |-> par, kind |-> kind, live |-> TRUE]
OStart == <<>>
Has(own, i) == i \in 1..Len(own) /\ own[i].live

\* something owned by the driver still borrows from i
RECURSIVE Lent(_, _)
Lent(own, i) == \E c \in 1..Len(own) :
  own[c].par = i /\ own[c].live /\ (own[c].kind \in {"o", "e"} \/ Lent(own, c))
\* something that borrows exclusively
LentOut(own, i) == \E c \in 1..Len(own) :
  own[c].par = i /\ own[c].live /\ (own[c].kind = "o" \/ (own[c].kind = "b" /\ Lent(own, c)))

\* borrowed things are gone with their parent
RECURSIVE Below(_, _, _)
Below(own, i, c) == own[c].par = i \/ (own[c].par # 0 /\ own[own[c].par].kind = "b" /\ Below(own, i, own[c].par))
Forget(own, i) == [c \in 1..Len(own) |-> IF own[c].kind = "b" /\ own[c].par # 0 /\ Below(own, i, c) THEN [own[c] EXCEPT !.live = FALSE] ELSE own[c]]

CanCreate(own, i, par) == i = Len(own) + 1 /\ (par = 0 \/ Has(own, par))
Create(own, par, kind) == Append(own, Thing(par, kind))

\* starting a value only reads it, using a container or emitter changes it,
\* and a finished thing must not be borrowed from any more
CanRead(own, i) == Has(own, i)
CanUse(own, i) == Has(own, i) /\ ~LentOut(own, i)
CanFinish(own, i) == Has(own, i) /\ ~Lent(own, i)
Use(own, i) == Forget(own, i)

CanDrop(own, i) == Has(own, i) /\ own[i].kind # "b" /\ ~Lent(own, i)
Drop(own, i) == [Forget(own, i) EXCEPT ![i].live = FALSE]

AllGone(own) == \A i \in 1..Len(own) : own[i].kind = "b" \/ ~own[i].live
=============================================================================
