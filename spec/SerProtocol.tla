---------------------------- MODULE SerProtocol -----------------------------
(***************************************************************************)
(* The protocol between the serialization driver, values and emitters.     *)
(* A value has a shape: <<"a">> an atom, <<"S", ...>> a sequence,          *)
(* <<"M", key, value, ...>> a map, <<"T", ...>> a struct.  The driver has  *)
(* a stack of things to do:                                                *)
(*   ser v       ask v for what it is                                      *)
(*   adv e       ask the emitter e of the container v for what is next     *)
(*   key         the key of a struct entry                                 *)
(*   fin v       finish v                                                  *)
(* and the phase says what is observed next.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ser(v, sh) == [t |-> "ser", v |-> v, sh |-> sh, e |-> 0, pos |-> 0]
Adv(v, sh, e) == [t |-> "adv", v |-> v, sh |-> sh, e |-> e, pos |-> 2]
KeyOf(v, sh, pos) == [t |-> "key", v |-> v, sh |-> sh, e |-> 0, pos |-> pos]
Fin(v) == [t |-> "fin", v |-> v, sh |-> <<"a">>, e |-> 0, pos |-> 0]

\* open: values of the open containers
SStart(sh) == [td |-> <<Ser(1, sh)>>, open |-> <<>>, ph |-> "idle", res |-> "end"]
STop(s) == s.td[Len(s.td)]
SPop(s) == [s EXCEPT !.td = SubSeq(@, 1, Len(@) - 1)]
Replace(s, x) == [s EXCEPT !.td[Len(s.td)] = x]
OpenTop(s) == IF s.open = <<>> THEN 0 ELSE s.open[Len(s.open)]

\* a call of next begins
SBegin(s) == [s EXCEPT !.ph = "run"]

More(x) == x.pos <= Len(x.sh)

\* the callback that has to come next
SExpected(s) ==
  IF s.ph # "run" \/ s.td = <<>> THEN <<"", 0>>
  ELSE LET x == STop(s) IN
       CASE x.t = "ser" -> <<"ser", x.v>>
         [] x.t = "fin" -> <<"finish", x.v>>
         [] x.t = "adv" -> <<IF x.sh[1] # "M" THEN "next" ELSE IF x.pos % 2 = 0 THEN "key" ELSE "value", x.e>>
         [] x.t = "key" -> <<"", 0>>

\* after that callback
SCalled(s) ==
  LET x == STop(s) IN
  CASE x.t = "ser" -> IF x.sh[1] = "a" THEN [s EXCEPT !.ph = "ev"] ELSE [s EXCEPT !.ph = "emitter"]
    [] x.t = "fin" -> SPop(s)
    [] x.t = "adv" -> IF More(x) THEN [s EXCEPT !.ph = "child"] ELSE [s EXCEPT !.ph = "ev"]
SFailed(s, how) == [s EXCEPT !.ph = "ret", !.res = how]

\* a new component: the emitter of a value or the child of an emitter
SParent(s) == IF s.ph = "emitter" THEN STop(s).v ELSE STop(s).e
SCreated(s, id) ==
  LET x == STop(s) IN
  IF s.ph = "emitter" THEN [Replace(s, Adv(x.v, x.sh, id)) EXCEPT !.ph = "start", !.open = Append(@, x.v)]
  ELSE LET c == Ser(id, x.sh[x.pos])
           q == Replace(s, [x EXCEPT !.pos = @ + 1])
       IN [q EXCEPT !.ph = "run", !.td = @ \o (IF x.sh[1] = "T" THEN <<c, KeyOf(x.v, x.sh, x.pos)>> ELSE <<c>>)]

\* the event that has to be returned: event, value its descriptor is of
SEvent(s) ==
  IF s.ph = "start" THEN << <<IF STop(s).sh[1] = "S" THEN "S" ELSE "M">>, STop(s).v>>
  ELSE IF s.ph = "run" /\ s.td # <<>> /\ STop(s).t = "key" THEN << <<"k", STop(s).pos>>, -2>>
  ELSE IF s.ph # "ev" THEN << <<"none">>, 0>>
  ELSE IF STop(s).t = "ser" THEN << <<"a", STop(s).v>>, STop(s).v>>
  ELSE << <<IF STop(s).sh[1] = "S" THEN "s" ELSE "m">>, STop(s).v>>

SReturned(s) ==
  IF s.ph = "start" THEN [s EXCEPT !.ph = "idle"]
  ELSE LET x == STop(s) IN
       CASE x.t = "key" -> [SPop(s) EXCEPT !.ph = "idle"]
         [] x.t = "ser" -> [Replace(s, Fin(x.v)) EXCEPT !.ph = "idle"]
         [] x.t = "adv" -> [Replace(s, Fin(x.v)) EXCEPT !.ph = "idle", !.open = SubSeq(@, 1, Len(@) - 1)]

\* the end or an error is returned
SEnds(s) == (s.ph = "run" /\ s.td = <<>>) \/ s.ph = "ret"
SResult(s) == IF s.ph = "run" THEN "end" ELSE s.res
=============================================================================
