----------------------------- MODULE DeMachine ------------------------------
(***************************************************************************)
(* Deserialization as a machine that consumes one event per step.  A frame *)
(* is an open container with what it received so far.  Step(m, e) is the   *)
(* successor of machine m on event e.                                      *)
(***************************************************************************)
EXTENDS Data

\* one frame; all frames have the same fields
\*   k     "seq", "map" or "st" (keyed by fields); "ign" ignores its content
\*   c     closing event
\*   ty    container type, w the number of options around it
\*   it    received elements, or entries <<key, value>> of maps
\*   asg   struct: received fields <<path, value>>
\*   key   <<>> or <<key>> while the value of a map or struct is awaited
Frame(k, c, ty, w) == [k |-> k, c |-> c, ty |-> ty, w |-> w, it |-> <<>>, asg |-> <<>>, key |-> <<>>]

\* machine: root type, open frames (innermost last), status, error kind, value
Start(ty) == [ty |-> ty, st |-> <<>>, s |-> "run", e |-> "", v |-> <<>>]

----------------------------------------------------------------------------
(* struct fields and their values; Route is in Data *)
RECURSIVE TypeAt(_, _)
TypeAt(i, path) == LET t == Types[Cores[i]]
                   IN IF path[1] = 0 THEN t.a[2]
                      ELSE IF Len(path) = 1 THEN t.f[path[1]].ty ELSE TypeAt(t.f[path[1]].ty, Tail(path))

Lookup(asg, path) == \* the last value received for a field
  LET js == {j \in 1..Len(asg) : asg[j][1] = path}
  IN IF js = {} THEN <<>> ELSE <<asg[CHOOSE j \in js : \A x \in js : x <= j][2]>>

RECURSIVE LastWins(_)
LastWins(entries) == \* of entries with equal keys only the last one is left
  IF entries = <<>> THEN <<>>
  ELSE LET n == Len(entries) IN
       Append(LastWins(SelectSeq(SubSeq(entries, 1, n - 1), LAMBDA x : x[1] # entries[n][1])), entries[n])

\* what was received for the keys of a bag
BagEntries(asg, path) ==
  LET es == SelectSeq(asg, LAMBDA x : x[1] = path) IN [j \in 1..Len(es) |-> <<es[j][3], es[j][2]>>]

\* build a struct: <<"ok", value>> or <<"err", kind>>
RECURSIVE Build(_, _, _)
Build(i, pre, asg) ==
  IF Types[Cores[i]].k = "bag" THEN Ok(<<"map", LastWins(BagEntries(asg, Append(pre, 0)))>>)
  ELSE LET c == Cores[i] t == Types[c]
      Field(j) ==
        LET f == t.f[j] got == Lookup(asg, Append(pre, j)) IN
        IF f.flat = 1 THEN Build(f.ty, Append(pre, j), asg)
        ELSE IF got # <<>> THEN Ok(got[1])
        ELSE IF f.df = 1 THEN Ok(DefaultVal(f.ty))
        ELSE IF f.df = 2 THEN Ok(f.dv)
        ELSE IF t.dflt # 0 THEN Ok(t.cv[j])
        ELSE IF Types[f.ty].k = "opt" THEN Ok(<<"none">>)
        ELSE Err("MissingField")
      fs == [j \in 1..Len(t.f) |-> Field(j)]
      bad == {j \in 1..Len(t.f) : fs[j][1] = "err"}
  IN IF bad = {} THEN Ok(<<"st", [j \in 1..Len(t.f) |-> fs[j][2]]>>)
     ELSE Err("MissingField")

----------------------------------------------------------------------------
(* completing a container *)
RECURSIVE Distinct(_)
Distinct(xs) == IF xs = <<>> THEN <<>>
                ELSE <<xs[1]>> \o Distinct(SelectSeq(Tail(xs), LAMBDA x : x # xs[1]))

CompleteCore(f) ==
  LET t == Types[f.ty] IN
  CASE t.k = "vec" -> Ok(<<"seq", f.it>>)
    [] t.k = "arr" -> IF Len(f.it) = t.n THEN Ok(<<"seq", f.it>>) ELSE Err("WrongLength")
    [] t.k = "tup" -> IF Len(f.it) = Len(t.a) THEN Ok(<<"seq", f.it>>) ELSE Err("WrongLength")
    [] t.k \in {"bset", "hset"} -> Ok(<<"set", Distinct(f.it)>>)
    [] t.k \in {"bmap", "hmap"} -> Ok(<<"map", LastWins(f.it)>>)
    [] t.k \in {"st", "bag"} -> Build(f.ty, <<>>, f.asg)

Complete(f) == LET r == CompleteCore(f)
               IN IF r[1] = "ok" THEN Ok(SomeN(r[2], f.w)) ELSE r

----------------------------------------------------------------------------
(* where the next value goes: <<"ty", type>>, <<"ign">> or <<"err", kind>>; *)
(* type 0 is the key of a struct, which is a string                        *)
Target(m) ==
  IF m.st = <<>> THEN <<"ty", m.ty>>
  ELSE LET f == m.st[Len(m.st)] IN
       IF f.k = "ign" THEN <<"ign">>
       ELSE LET t == Types[f.ty] IN
       CASE f.k = "seq" ->
              IF t.k = "arr" THEN (IF Len(f.it) >= t.n THEN Err("WrongLength") ELSE <<"ty", t.a[1]>>)
              ELSE IF t.k = "tup" THEN (IF Len(f.it) >= Len(t.a) THEN Err("WrongLength") ELSE <<"ty", t.a[Len(f.it) + 1]>>)
              ELSE <<"ty", t.a[1]>>
         [] f.k = "map" -> <<"ty", IF f.key = <<>> THEN t.a[1] ELSE t.a[2]>>
         [] f.k = "st" ->
              IF f.key = <<>> THEN <<"ty", 0>>
              ELSE LET p == Route(f.ty, f.key[1][2])
                   IN IF p = <<>> THEN <<"ign">> ELSE <<"ty", TypeAt(f.ty, p)>>

\* a value (or <<>> for ignored data) arrives at the innermost open container
Deliver(m, v) ==
  IF m.st = <<>> THEN [m EXCEPT !.s = "done", !.v = v]
  ELSE LET n == Len(m.st) f == m.st[n] IN
       [m EXCEPT !.st[n] =
         CASE f.k = "ign" -> f
           [] f.k = "seq" -> [f EXCEPT !.it = Append(@, v)]
           [] f.k = "map" -> IF f.key = <<>> THEN [f EXCEPT !.key = <<v>>]
                             ELSE [f EXCEPT !.key = <<>>, !.it = Append(@, <<f.key[1], v>>)]
           [] f.k = "st" ->
                IF f.key = <<>> THEN [f EXCEPT !.key = <<v>>]
                ELSE LET p == Route(f.ty, f.key[1][2])
                     IN [f EXCEPT !.key = <<>>,
                                  !.asg = IF p = <<>> THEN @ ELSE Append(@, <<p, v, f.key[1]>>)]]

Fail(m, kind) == [m EXCEPT !.s = "err", !.e = kind]

\* a container starts (M or S)
OpenKind(i) == LET k == Types[i].k IN
  IF k \in {"vec", "arr", "tup", "bset", "hset"} THEN "seq"
  ELSE IF k \in {"bmap", "hmap"} THEN "map"
  ELSE IF k \in {"st", "bag"} THEN "st" ELSE "none"

Open(m, e) ==
  LET tg == Target(m) close == IF e = "M" THEN "m" ELSE "s" IN
  IF tg[1] = "err" THEN Fail(m, tg[2])
  ELSE IF tg[1] = "ign" THEN [m EXCEPT !.st = Append(@, Frame("ign", close, 0, 0))]
  ELSE IF tg[2] = 0 THEN Fail(m, "Unexpected")
  ELSE LET s == Strips[tg[2]] k == OpenKind(s[1]) IN
       IF (e = "S" /\ k = "seq") \/ (e = "M" /\ k \in {"map", "st"})
         THEN [m EXCEPT !.st = Append(@, Frame(k, close, s[1], s[2]))]
         ELSE Fail(m, "Unexpected")

Close(m, e) ==
  IF m.st = <<>> \/ m.st[Len(m.st)].c # e THEN [m EXCEPT !.s = "panic"]
  ELSE LET n == Len(m.st) f == m.st[n] up == [m EXCEPT !.st = SubSeq(@, 1, n - 1)] IN
       IF f.k = "ign" THEN Deliver(up, <<>>)
       ELSE LET r == Complete(f) IN IF r[1] = "ok" THEN Deliver(up, r[2]) ELSE Fail(up, r[2])

Atom(m, a) ==
  LET tg == Target(m) IN
  IF tg[1] = "err" THEN Fail(m, tg[2])
  ELSE IF tg[1] = "ign" THEN Deliver(m, <<>>)
  ELSE LET r == IF tg[2] = 0 THEN (IF a[1] = "str" THEN Ok(a) ELSE Err("Unexpected")) ELSE AtomTo(tg[2], a)
       IN IF r[1] = "ok" THEN Deliver(m, r[2]) ELSE Fail(m, r[2])

Step(m, e) ==
  CASE e[1] \in {"M", "S"} -> Open(m, e[1])
    [] e[1] \in {"m", "s"} -> Close(m, e[1])
    [] OTHER -> Atom(m, e)

----------------------------------------------------------------------------
(* what sinks say about themselves: the descriptor of the innermost open   *)
(* container, and the message of an error                                  *)
SinkDesc(i) ==
  LET t == Types[i] k == t.k N(x) == <<x, 0 - 1, 0>> U(x) == <<x, 0 - 1, 1>> IN
  CASE k = "unit" -> N("null")
    [] k \in {"bool", "char", "f32", "f64"} \cup IntKinds -> N(k)
    [] k = "str" -> N("string")
    [] k = "vec" -> N(IF IsBytesElem(t.a[1]) THEN "bytes" ELSE "vec")
    [] k \in {"bmap", "hmap"} -> U("map")
    [] k = "bset" -> U("BTreeSet")
    [] k = "hset" -> U("HashSet")
    [] k = "tup" -> N("tuple")
    [] k = "arr" -> N("array")
    [] k = "st" -> N(t.hint)
    [] k = "bag" -> N("Bag")
    [] OTHER -> N("<none>")
\* the sink of a bag says what it expects, any other one is described by its name
Expecting(core) == IF Types[core].k = "bag" THEN "anything for a bag"
                   ELSE IF SinkDesc(core)[1] = "<none>" THEN "compatible type" ELSE SinkDesc(core)[1]
Expectings == TLCEval([i \in 1..NTypes |-> Expecting(Strips[i][1])])
SinkDescs == TLCEval([i \in 1..NTypes |-> SinkDesc(Strips[i][1])])
TopDesc(m) == IF m.st = <<>> THEN <<>>
              ELSE LET f == m.st[Len(m.st)] IN IF f.k = "ign" THEN <<"<none>", 0 - 1, 0>> ELSE SinkDescs[f.ty]

Found(e) == CASE e[1] = "M" -> "map" [] e[1] = "S" -> "sequence" [] e[1] = "str" -> "string"
              [] e[1] = "u" -> "unsigned integer" [] e[1] = "i" -> "signed integer" [] e[1] = "f" -> "float"
              [] OTHER -> e[1]
\* the message of the error that event e causes in m ("" where nothing is specified)
Message(m, e) ==
  LET n == Step(m, e) tg == Target(m) IN
  IF n.s # "err" \/ n.e # "Unexpected" \/ tg[1] # "ty" \/ e[1] \in {"m", "s"} THEN ""
  ELSE LET core == IF tg[2] = 0 THEN 0 ELSE Strips[tg[2]][1] IN
       IF core # 0 /\ Types[core].k = "en" /\ e[1] = "str" THEN ""
       ELSE "Unexpected: unexpected " \o Found(e) \o ", expected " \o
            (IF core = 0 THEN "string" ELSE Expectings[core])

\* names of the fields that are missing in a struct
RECURSIVE Missing(_, _, _)
Missing(i, pre, asg) ==
  LET c == Cores[i] t == Types[c] IN
  IF t.k = "bag" THEN {} ELSE
  UNION {LET f == t.f[j] IN
         IF f.flat = 1 THEN Missing(f.ty, Append(pre, j), asg)
         ELSE IF Lookup(asg, Append(pre, j)) = <<>> /\ f.df = 0 /\ t.dflt = 0 /\ Types[f.ty].k # "opt" THEN {Names[c][j]} ELSE {}
         : j \in 1..Len(t.f)}

----------------------------------------------------------------------------
(* defaults are lazy: the calls <<type, field>> (field 0: of the type) an   *)
(* event leads to, in no particular order                                   *)
RECURSIVE DefaultCalls(_)
DefaultCalls(i) ==
  LET t == Types[i] k == t.k IN
  CASE k = "st" -> IF t.lg = 1 THEN << <<i, 0>> >>
                   ELSE FoldLeft(LAMBDA x, y : x \o y, <<>>, [j \in 1..Len(t.f) |-> DefaultCalls(t.f[j].ty)])
    [] k = "box" -> DefaultCalls(t.a[1])
    [] k = "arr" -> FoldLeft(LAMBDA x, y : x \o y, <<>>, [j \in 1..t.n |-> DefaultCalls(t.a[1])])
    [] k = "tup" -> FoldLeft(LAMBDA x, y : x \o y, <<>>, [j \in 1..Len(t.a) |-> DefaultCalls(t.a[j])])
    [] OTHER -> <<>>

RECURSIVE BuildCalls(_, _, _)
BuildCalls(i, pre, asg) ==
  IF Types[Cores[i]].k = "bag" THEN <<>>
  ELSE LET c == Cores[i] t == Types[c]
      Gone(j) == t.f[j].flat = 0 /\ Lookup(asg, Append(pre, j)) = <<>>
      Field(j) == IF t.f[j].flat = 1 THEN BuildCalls(t.f[j].ty, Append(pre, j), asg)
                  ELSE IF ~Gone(j) THEN <<>>
                  ELSE IF t.f[j].df = 1 THEN DefaultCalls(t.f[j].ty)
                  ELSE IF t.f[j].df = 2 THEN << <<c, j>> >> ELSE <<>>
      own == IF t.dflt # 0 /\ \E j \in 1..Len(t.f) : Gone(j) /\ t.f[j].df = 0
               THEN (IF t.dflt = 1 THEN DefaultCalls(c) ELSE << <<c, 0>> >>) ELSE <<>>
  IN own \o FoldLeft(LAMBDA x, y : x \o y, <<>>, [j \in 1..Len(t.f) |-> Field(j)])

Calls(m, e) ==
  IF e[1] # "m" \/ m.st = <<>> THEN <<>>
  ELSE LET f == m.st[Len(m.st)] IN IF f.k = "st" THEN BuildCalls(f.ty, <<>>, f.asg) ELSE <<>>
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in {a[j] : j \in 1..Len(a)} :
  Cardinality({j \in 1..Len(a) : a[j] = x}) = Cardinality({j \in 1..Len(b) : b[j] = x})

RECURSIVE Run(_, _)
Run(m, evs) == IF evs = <<>> \/ m.s # "run" THEN m ELSE Run(Step(m, evs[1]), Tail(evs))
=============================================================================
