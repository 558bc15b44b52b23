----------------------------- MODULE DeProtocol -----------------------------
(***************************************************************************)
(* The protocol between the deserialization driver and sinks.  Sinks are   *)
(* identified by numbers: 0 is a null sink, which takes everything.  The   *)
(* state of one emit call is the phase:                                    *)
(*   idle   no call is running                                             *)
(*   ask    the innermost container has to be asked for a child            *)
(*   give   the current sink has to be given the atom, map or sequence     *)
(*   fin    the current sink has to be finished                            *)
(*   end    the innermost container has to be finished                     *)
(*   ret    the call has to return res                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Events == {"a", "M", "S", "m", "s"}
Frame(id, map) == [id |-> id, map |-> map, key |-> map]

PStart == [fr |-> <<>>, ph |-> "idle", ev |-> "", cur |-> 0, root |-> 1, res |-> "ok", n |-> ""]

PTop(p) == p.fr[Len(p.fr)]
\* the sink of the innermost container, as the driver reports it
TopId(fr) == IF fr = <<>> THEN 0 ELSE IF fr[Len(fr)].id = 0 THEN -1 ELSE fr[Len(fr)].id
Pop(p) == [p EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Ret(p, r) == [p EXCEPT !.ph = "ret", !.res = r]
Toggle(p) == IF PTop(p).map THEN [p EXCEPT !.fr[Len(p.fr)].key = ~@] ELSE p

\* null sinks are not observed
RECURSIVE Silent(_)
Silent(p) ==
  CASE p.ph = "ask" /\ PTop(p).id = 0 -> Silent([Toggle(p) EXCEPT !.cur = 0, !.ph = "give"])
    [] p.ph = "give" /\ p.cur = 0 ->
         IF p.ev = "a" THEN Ret(p, "ok")
         ELSE Ret([p EXCEPT !.fr = Append(@, Frame(0, p.ev = "M"))], "ok")
    [] p.ph = "end" /\ PTop(p).id = 0 -> Ret(Pop(p), "ok")
    [] OTHER -> p

Matches(p, e) == p.fr # <<>> /\ PTop(p).map = (e = "m")

\* an emit call begins
Begin(p, e, n) ==
  LET q == [p EXCEPT !.ev = e, !.n = n] IN
  Silent(IF e \in {"m", "s"} THEN (IF Matches(p, e) THEN [q EXCEPT !.ph = "end"] ELSE Ret(q, "mismatch"))
         ELSE IF p.fr = <<>> THEN [q EXCEPT !.cur = q.root, !.ph = "give"]
         ELSE [q EXCEPT !.ph = "ask"])

\* the callback that has to come next: its name and the sink
Expected(p) ==
  CASE p.ph = "ask" -> <<IF PTop(p).map /\ PTop(p).key THEN "key" ELSE "value", PTop(p).id>>
    [] p.ph = "give" -> <<CASE p.ev = "a" -> "atom" [] p.ev = "M" -> "map" [] p.ev = "S" -> "seq", p.cur>>
    [] p.ph = "fin" -> <<"finish", p.cur>>
    [] p.ph = "end" -> <<"finish", PTop(p).id>>
    [] OTHER -> <<"", 0>>

\* after that callback, which succeeded; ask needs a child
Called(p) ==
  CASE p.ph = "ask" -> [Toggle(p) EXCEPT !.ph = "child"]
    [] p.ph = "give" -> IF p.ev = "a" THEN [p EXCEPT !.ph = "fin"]
                        ELSE Ret([p EXCEPT !.fr = Append(@, Frame(p.cur, p.ev = "M"))], "ok")
    [] p.ph = "fin" -> Ret(p, "ok")
    [] p.ph = "end" -> Ret(Pop(p), "ok")
\* or failed
Failed(p, how) == Ret(p, how)

\* the child it handed out
Child(p, id) == Silent([p EXCEPT !.cur = id, !.ph = "give"])

\* the call returns
Returned(p) == [p EXCEPT !.ph = IF p.res = "ok" THEN "idle" ELSE "over"]
=============================================================================
