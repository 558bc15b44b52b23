----------------------------- MODULE TraceConv ------------------------------
(***************************************************************************)
(* Events and chunks made from Rust values: whatever the value is given    *)
(* as, it is that atom, and stays it when it is copied.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACES))

VARIABLES trc, ln, bad
Tr == Traces[trc]
Crashed(r) == "crash" \in DOMAIN r
Say(why) == IF why = "" THEN TRUE ELSE PrintT(<<"BAD", trc, ln, why>>)

\* the Rust types that the atoms of a kind are made from
Sources(k) ==
  {"atom"} \cup
  CASE k = "null" -> {"unit"} [] k = "bool" -> {"bool"} [] k = "char" -> {"char"}
    [] k = "u" -> {"u64", "usize"} [] k = "i" -> {"i64", "isize"} [] k = "f" -> {"f64"}
    [] k = "str" -> {"str", "String", "cow"} [] k = "bytes" -> {"bytes"}
\* and what is made of them: there is no chunk from a Cow
Made(src) == {"event", "static", "clone", "atom", "equal"} \cup (IF src = "cow" THEN {} ELSE {"chunk"})

\* floats are compared by their bits
EvEq(a, b) == IF a[1] = "f" /\ b[1] = "f" THEN a[6] = b[6] ELSE a = b
LineOk(x) == IF x[2] = "equal" THEN x[3] = 1 ELSE EvEq(Tr.v, x[3])
Verdict ==
  LET L == Tr.log IN
  IF \E i \in 1..Len(L) : ~LineOk(L[i]) THEN "not the atom of the value"
  ELSE IF {<<L[i][1], L[i][2]>> : i \in 1..Len(L)} # UNION {{s} \X Made(s) : s \in Sources(Tr.v[1])} THEN "not all conversions"
  ELSE ""

Init == trc \in 1..Len(Traces) /\ ln = 1 /\ bad = ""
Next == /\ ln = 1 /\ ln' = 2 /\ UNCHANGED trc
        /\ bad' = (IF Crashed(Tr) THEN "crash" ELSE Verdict) /\ Say(bad')
Spec == Init /\ [][Next]_<<trc, ln, bad>>
View == <<trc, ln, bad>>
Good == bad = ""
=============================================================================
