------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* When a value that was serialized and deserialized is the same value.    *)
(***************************************************************************)
EXTENDS Data

\* a value that is written as null
RECURSIVE NullLike(_, _)
NullLike(i, v) ==
  LET k == Types[i].k IN
  IF k = "opt" THEN v[1] = "none" \/ NullLike(Types[i].a[1], v[2])
  ELSE IF k \in Transparent THEN NullLike(Types[i].a[1], v)
  ELSE k = "unit"

\* equality of two values of the implementation
RECURSIVE Same(_, _, _)
Same(i, a, b) ==
  LET ty == Types[i] k == ty.k IN
  CASE k \in Transparent -> Same(ty.a[1], a, b)
    [] k = "opt" -> IF NullLike(i, a) THEN NullLike(i, b)
                    ELSE b[1] = "some" /\ Same(ty.a[1], a[2], b[2])
    [] k \in {"vec", "arr", "bset"} -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : Same(ty.a[1], a[2][j], b[2][j])
    [] k = "tup" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : Same(ty.a[j], a[2][j], b[2][j])
    [] k = "st" -> \A j \in 1..Len(a[2]) : Same(ty.f[j].ty, a[2][j], b[2][j])
    [] k \in {"bmap", "bag"} -> /\ Len(a[2]) = Len(b[2])
                     /\ \A j \in 1..Len(a[2]) : Same(ty.a[1], a[2][j][1], b[2][j][1]) /\ Same(ty.a[2], a[2][j][2], b[2][j][2])
    [] k = "hset" -> Len(a[2]) = Len(b[2]) /\ \A j \in 1..Len(a[2]) : \E x \in 1..Len(b[2]) : Same(ty.a[1], a[2][j], b[2][x])
    [] k = "hmap" -> /\ Len(a[2]) = Len(b[2])
                     /\ \A j \in 1..Len(a[2]) : \E x \in 1..Len(b[2]) :
                          Same(ty.a[1], a[2][j][1], b[2][x][1]) /\ Same(ty.a[2], a[2][j][2], b[2][x][2])
    [] k \in {"f32", "f64"} -> EvEq(a, b) \/ (a[2] = 0 /\ b[2] = 0)
    [] OTHER -> a = b

Children(i) == LET ty == Types[i] IN
  IF ty.k = "st" THEN {ty.f[j].ty : j \in 1..Len(ty.f)} ELSE {ty.a[j] : j \in 1..Len(ty.a)}
Below == TLCEval([i \in 1..NTypes |-> Children(i)])

\* the types in S and those that contain one of them
RECURSIVE Containing(_)
Containing(S) == LET n == S \cup {i \in 1..NTypes : Below[i] \cap S # {}}
                 IN IF n = S THEN S ELSE Containing(TLCEval(n))

\* optionals below which there is another null
Twofold == TLCEval(Containing({i \in 1..NTypes :
  Types[i].k = "opt" /\ (Strips[i][2] > 1 \/ Types[Strips[i][1]].k = "unit")}))

\* keys that a null cannot tell apart collapse: None and Some(())
Collapsing == TLCEval(Containing({i \in 1..NTypes :
  Types[i].k \in {"bmap", "hmap", "bset", "hset"} /\ Types[i].a[1] \in Twofold}))

Skipping == TLCEval(Containing({i \in 1..NTypes :
  Types[i].k = "st" /\ (Types[i].so = 1 \/ \E j \in 1..Len(Types[i].f) : Types[i].f[j].sk # "")}))

\* structs that flatten a bag that takes any key, such as those of other fields
RECURSIVE CatchAll(_)
CatchAll(i) == LET t == Types[Cores[i]] IN
  IF t.k = "bag" THEN t.pre = <<>> ELSE t.k = "st" /\ \E j \in 1..Len(t.f) : t.f[j].flat = 1 /\ CatchAll(t.f[j].ty)

\* structs that flatten two fields of one name: the first one receives both
Ambiguous == TLCEval(Containing({i \in 1..NTypes :
  Types[i].k = "st" /\ (CatchAll(i) \/ \E w \in Written(i) : Route(i, w[1]) # w[2])}))

Lossless == TLCEval([i \in 1..NTypes |-> i \notin Skipping \cup Collapsing \cup Ambiguous])
=============================================================================
