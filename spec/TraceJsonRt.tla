----------------------------- MODULE TraceJsonRt ----------------------------
(***************************************************************************)
(* Every recorded serialization to JSON: the text is valid, denotes the    *)
(* events of the value, and reading it gives the value DeMachine makes of  *)
(* what the text denotes.                                                  *)
(***************************************************************************)
EXTENDS SerMachine, DeMachine, Equality, JsonNum, JsonParse

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, jp, evs, bad
vars == <<trc, ln, jp, evs, bad>>
View == <<trc, ln, bad>>
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* there is a JSON text for these events; st has for every open container
\* whether a key is next (0: sequence, 1: key, 2: value)
RECURSIVE Expressible(_, _, _)
Expressible(e, i, st) ==
  IF i > Len(e) THEN TRUE
  ELSE LET x == e[i][1] n == Len(st)
           key == n > 0 /\ st[n] = 1
           nx == IF n = 0 \/ st[n] = 0 THEN st ELSE [st EXCEPT ![n] = 3 - @]
       IN CASE x = "m" \/ x = "s" -> Expressible(e, i + 1, SubSeq(st, 1, n - 1))
            [] x = "bytes" -> FALSE
            [] key /\ x \notin {"str", "char"} -> FALSE
            [] x = "M" -> Expressible(e, i + 1, Append(nx, 1))
            [] x = "S" -> Expressible(e, i + 1, Append(nx, 0))
            [] OTHER -> Expressible(e, i + 1, nx)

\* an event as JSON has it
JsonEv(e) ==
  CASE e[1] = "char" -> <<"str", <<e[2]>>>>
    [] e[1] = "f" /\ e[2] \notin {0, 1} -> <<"null">>
    [] OTHER -> e
JsonEvs(es) == TLCEval([k \in 1..Len(es) |-> JsonEv(es[k])])

\* zeros may lose their sign
Unsigned(es) == TLCEval([k \in 1..Len(es) |-> IF es[k][1] = "f" /\ es[k][2] = 0 THEN <<"u", <<0>>>> ELSE es[k]])

Denotes(p, e) ==
  CASE e[1] \in {"u", "i"} -> /\ p[1] = "num" /\ Exact(p) /\ NumIs(p, e)
    [] e[1] = "f" -> p[1] = "num" /\ RoundsTo(p, e)
    [] OTHER -> p = e

Init == /\ trc \in 1..Len(Traces)
        /\ ln = 0 /\ jp = JStart /\ evs = <<>>
        /\ bad = IF Crashed(Traces[trc]) THEN "crash" ELSE ""

\* is there a text
Begin ==
  /\ bad = "" /\ ln = 0
  /\ LET e == EventsOf(Tr.ty, Tr.v)
         ok == e[1] = "end" /\ Expressible(e[2], 1, <<>>)
         v == IF Tr.st = "panic" THEN "panic"
              ELSE IF ok /\ Tr.st # "ok" THEN "serialization failed"
              ELSE IF ~ok /\ Tr.st = "ok" THEN "no error for what JSON cannot express"
             ELSE IF ~ok /\ "VH_MESSAGES" \in DOMAIN IOEnv /\ Tr.st # "UnsupportedType" THEN "wrong kind of error"
              ELSE ""
     IN bad' = v /\ Say(v) /\ evs' = JsonEvs(e[2])
  /\ ln' = IF Tr.st = "ok" THEN 1 ELSE Len(Tr.text) + 3
  /\ UNCHANGED <<trc, jp>>

Read == /\ bad = "" /\ ln \in 1..Len(Tr.text)
        /\ jp' = JStep(jp, Tr.text[ln]) /\ ln' = ln + 1
        /\ bad' = (IF jp'.m = "err" THEN "invalid JSON" ELSE "") /\ Say(bad')
        /\ UNCHANGED <<trc, evs>>

TextOk(d) ==
  IF d.m # "accept" THEN "invalid JSON"
  ELSE IF Len(d.evs) # Len(evs) \/ \E k \in 1..Len(evs) : ~Denotes(d.evs[k], evs[k]) THEN "the text denotes something else"
  ELSE ""

\* what reading the text has to give
BackOk ==
  IF Tr.bst = "skip" THEN ""
  ELSE LET r == Run(Start(Tr.ty), Unsigned(evs))
           e == EventsOf(Tr.ty, Tr.v)[2]
           finite == \A k \in 1..Len(e) : e[k][1] = "f" => e[k][2] \in {0, 1}
       IN IF r.s = "done" THEN
            IF Tr.bst # "ok" THEN "own text rejected"
            ELSE IF ~ValEq(Tr.ty, r.v, Tr.back[2]) THEN "not the value of the text"
            ELSE IF finite /\ Lossless[Tr.ty] /\ ~Same(Tr.ty, Tr.v, Tr.back[2]) THEN "not the same value"
            ELSE ""
          ELSE IF finite /\ Lossless[Tr.ty] THEN "the value cannot be read back"
          ELSE IF Tr.bst = "ok" THEN "own text should be rejected" ELSE ""

Finish ==
  /\ bad = "" /\ ln = Len(Tr.text) + 1
  /\ LET d == JEnd(jp) a == TextOk(d) b == IF a = "" THEN BackOk ELSE a
     IN bad' = b /\ Say(b)
  /\ ln' = ln + 1 /\ UNCHANGED <<trc, jp, evs>>

Next == Begin \/ Read \/ Finish
Spec == Init /\ [][Next]_vars
Good == bad = ""
=============================================================================
