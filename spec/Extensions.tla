----------------------------- MODULE Extensions -----------------------------
(***************************************************************************)
(* Extension values: every driver has one value per type, at first the     *)
(* default of the type.  Types are numbers; a value is created at the      *)
(* first access of its type, and lives as long as its driver.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* types of their own, and a family of types that differ in one number
Named == <<0, 100, 200, 300, 400, 400, 500, 0, 0, 700, 600, 800, 850, 900, 7, 0, 0, 0, 0, 0, 0, 950>>
Family == 23..86
TypesX == (1..Len(Named)) \cup Family
DefaultOf == [t \in TypesX |-> IF t \in Family THEN 0 - t ELSE Named[t]]
Counted == 10

\* drivers: a set of <<driver, values by type>>
Drv(x, d) == CHOOSE e \in x : e[1] = d
IsOpen(x, d) == \E e \in x : e[1] = d
XOpen(x, d) == x \cup {<<d, <<>>>>}
XClose(x, d) == x \ {Drv(x, d)}
XRead(x, d, t) == LET v == Drv(x, d)[2] IN IF t \in DOMAIN v THEN v[t] ELSE DefaultOf[t]
XWrite(x, d, t, n) == LET e == Drv(x, d) IN (x \ {e}) \cup {<<d, (t :> n) @@ e[2]>>}
XTouch(x, d, t) == XWrite(x, d, t, XRead(x, d, t))
\* values of the counted type that exist
XCount(x) == Cardinality({e \in x : Counted \in DOMAIN e[2]})
=============================================================================
