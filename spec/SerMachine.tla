----------------------------- MODULE SerMachine -----------------------------
(***************************************************************************)
(* Serialization of a value as a machine that produces one observation per *)
(* step: an event (with descriptor, depth, topmost descriptor and path),   *)
(* or the start (B) or finish (F) of a probe, a transparent wrapper that   *)
(* makes the hooks visible.  The machine is a stack of things to do.       *)
(***************************************************************************)
EXTENDS Data

NoDesc == <<"<none>", -1, 0>>
Named(n) == <<n, -1, 0>>
Unordered(n) == <<n, -1, 1>>
Precision(k) == CASE k \in {"u8", "i8"} -> 8 [] k \in {"u16", "i16"} -> 16
                  [] k \in {"u32", "i32", "f32"} -> 32 [] OTHER -> 64

\* the descriptor of a value is that of its outermost visible type
RECURSIVE Desc(_)
Desc(i) ==
  LET t == Types[i] k == t.k IN
  CASE k \in Transparent -> Desc(t.a[1])
    [] k = "unit" -> Named("null")
    [] k \in {"bool", "char"} -> Named(k)
    [] k = "str" -> Named("String")
    [] k \in {"strref", "cow"} -> Named("str")
    [] k \in IntKinds \cup {"f32", "f64"} -> <<k, Precision(k), 0>>
    [] k = "opt" -> Named("optional")
    [] k = "vec" -> Named(IF IsBytesElem(t.a[1]) THEN "ByteVec" ELSE "Vec")
    [] k = "sl" -> Named(IF IsBytesElem(t.a[1]) THEN "bytes" ELSE "slice")
    [] k = "arr" -> Named("array")
    [] k = "tup" -> Named("tuple")
    [] k = "bmap" -> Named("BTreeMap")
    [] k = "hmap" -> Unordered("HashMap")
    [] k = "bset" -> Named("BTreeSet")
    [] k = "hset" -> Unordered("HashSet")
    [] k = "st" -> Named(t.hint)
    [] k = "bag" -> Named("Bag")
    [] k = "en" -> NoDesc
Descs == TLCEval([i \in 1..NTypes |-> Desc(i)])

\* a value that is currently absent
RECURSIVE IsOptional(_, _)
IsOptional(i, v) ==
  LET k == Types[i].k IN
  IF k = "opt" THEN v[1] = "none"
  ELSE IF k \in Transparent THEN IsOptional(Types[i].a[1], v)
  ELSE k = "unit"

\* skip predicates the registry uses
Skips(sk, v) ==
  CASE sk = "" -> FALSE
    [] sk = "never" -> FALSE
    [] sk = "always" -> TRUE
    [] sk = "none" -> v[1] = "none"
    [] sk = "empty" -> v[2] = <<>>
    [] sk = "zero" -> v = <<"int", 0, <<0>>>>

IsAtomic(i) == LET t == Types[i] IN
  \/ t.k \in IntKinds \cup {"unit", "bool", "str", "strref", "cow", "char", "f32", "f64", "en"}
  \/ t.k \in {"vec", "sl", "arr"} /\ IsBytesElem(t.a[1])

AtomOf(i, v) ==
  LET k == Types[i].k IN
  CASE k \in SignedKinds -> <<"i", v[2], v[3]>>
    [] k \in IntKinds -> <<"u", v[3]>>
    [] k \in {"vec", "sl", "arr"} -> <<"bytes", [j \in 1..Len(v[2]) |-> NatOf(v[2][j][3])]>>
    [] k = "en" -> <<"str", Names[i][v[2]]>>
    [] OTHER -> v

\* path segments
SegU == <<"U">>
SegK(s) == <<"K", s>>
SegI(n) == <<"I", DigitsOf(n)>>
Unknown == << <<"?">> >>      \* a path that is not specified: below keys
Sub(p, s) == IF p = Unknown THEN Unknown ELSE Append(p, s)

RECURSIVE KeySeg(_, _)
KeySeg(i, v) ==
  LET k == Types[i].k IN
  IF k \in Transparent THEN KeySeg(Types[i].a[1], v)
  ELSE IF k = "opt" THEN (IF v[1] = "none" THEN SegU ELSE KeySeg(Types[i].a[1], v[2]))
  ELSE IF k \in {"str", "strref", "cow"} THEN SegK(v[2])
  ELSE IF k = "en" THEN SegK(Names[i][v[2]])
  ELSE IF k \in IntKinds \ SignedKinds THEN <<"I", v[3]>>
  ELSE SegU

----------------------------------------------------------------------------
\* things to do
ValD(i, v, p, d, fins) == <<"val", i, v, fins, p, d>>
Val(i, v, p) == ValD(i, v, p, Descs[i], <<>>)
KeyItem(name) == <<"key", name>>
Flat(i, v, so, p, fins) == <<"flat", i, v, fins, p, so>>
Fin(fins, p) == IF fins = <<>> THEN <<>> ELSE << <<"fin", fins, p>> >>
CloseItem(e, d, p) == <<"close", e, d, p>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

\* the entries of a struct that are not skipped
Entries(i, v, so, p) ==
  IF Types[i].k = "bag" THEN
    Concat([j \in 1..Len(v[2]) |->
      LET e == v[2][j] IN
      IF so /\ IsOptional(Types[i].a[2], e[2]) THEN <<>>
      ELSE << KeyItem(e[1][2]), Val(Types[i].a[2], e[2], Sub(p, SegK(e[1][2]))) >>])
  ELSE LET t == Types[i]
      skip == so \/ t.so = 1
      Field(j) ==
        LET f == t.f[j] x == v[2][j] IN
        IF Skips(f.sk, x) THEN <<>>
        ELSE IF f.flat = 1 THEN << Flat(f.ty, x, skip, p, <<>>) >>
        ELSE IF skip /\ IsOptional(f.ty, x) THEN <<>>
        ELSE << KeyItem(Names[i][j]), Val(f.ty, x, Sub(p, SegK(Names[i][j]))) >>
  IN Concat([j \in 1..Len(t.f) |-> Field(j)])

Content(i, v, p) ==
  LET t == Types[i] k == t.k IN
  CASE k \in {"vec", "sl", "arr", "bset", "hset"} -> [j \in 1..Len(v[2]) |-> Val(t.a[1], v[2][j], Sub(p, SegI(j - 1)))]
    [] k = "tup" -> [j \in 1..Len(v[2]) |-> Val(t.a[j], v[2][j], Sub(p, SegI(j - 1)))]
    [] k \in {"bmap", "hmap"} ->
         Concat([j \in 1..Len(v[2]) |-> << Val(t.a[1], v[2][j][1], Unknown),
                                          Val(t.a[2], v[2][j][2], Sub(p, KeySeg(t.a[1], v[2][j][1]))) >>])
    [] k \in {"st", "bag"} -> Entries(i, v, FALSE, p)

Opening(i) == IF Types[i].k \in {"bmap", "hmap", "st", "bag"} THEN "M" ELSE "S"
Closing(i) == IF Types[i].k \in {"bmap", "hmap", "st", "bag"} THEN "m" ELSE "s"

\* machine: todo (next first), descriptors of the open containers, number of
\* probes that were started, status
SerStart(i, v) == [todo |-> << Val(i, v, <<>>) >>, open |-> <<>>, n |-> 0, s |-> "run", e |-> ""]

\* do what cannot be observed
RECURSIVE Norm(_)
Norm(m) ==
  IF m.s # "run" THEN m
  ELSE IF m.todo = <<>> THEN [m EXCEPT !.s = "end"]
  ELSE LET x == m.todo[1] rest == Tail(m.todo) IN
  IF x[1] = "val" /\ Types[x[2]].k \in Transparent \ {"probe"} THEN
    Norm([m EXCEPT !.todo = << ValD(Types[x[2]].a[1], x[3], x[5], x[6], x[4]) >> \o rest])
  ELSE IF x[1] = "val" /\ Types[x[2]].k = "opt" /\ x[3][1] = "some" THEN
    Norm([m EXCEPT !.todo = << ValD(Types[x[2]].a[1], x[3][2], x[5], x[6], x[4]) >> \o rest])
  ELSE IF x[1] = "flat" THEN
    LET k == Types[x[2]].k IN
    IF k = "probe" THEN m
    ELSE IF k \in Transparent THEN Norm([m EXCEPT !.todo = << Flat(Types[x[2]].a[1], x[3], x[6], x[5], x[4]) >> \o rest])
    ELSE IF k \in {"st", "bag"} THEN Norm([m EXCEPT !.todo = Entries(x[2], x[3], x[6], x[5]) \o Fin(x[4], x[5]) \o rest])
    ELSE [m EXCEPT !.s = "err", !.e = "Unexpected"]
  ELSE m

\* what can be observed next in a normalized machine
Obs(m) ==
  IF m.s # "run" THEN <<m.s>>
  ELSE LET x == m.todo[1] IN
  CASE x[1] \in {"val", "flat"} /\ Types[x[2]].k = "probe" -> <<"B", m.n + 1, x[5]>>
    [] x[1] = "fin" -> <<"F", x[2][1], x[3]>>
    [] x[1] = "key" -> <<"E", <<"str", x[2]>>, Named("str"), Unknown>>
    [] x[1] = "close" -> <<"E", <<x[2]>>, x[3], x[4]>>
    [] x[1] = "val" /\ Types[x[2]].k = "opt" -> <<"E", <<"null">>, x[6], x[5]>>
    [] x[1] = "val" /\ IsAtomic(x[2]) -> <<"E", AtomOf(x[2], x[3]), x[6], x[5]>>
    [] x[1] = "val" -> <<"E", << Opening(x[2]) >>, x[6], x[5]>>

\* the state after that observation
After(m) ==
  LET x == m.todo[1] rest == Tail(m.todo) IN
  Norm(
  CASE x[1] = "val" /\ Types[x[2]].k = "probe" ->
         [m EXCEPT !.n = @ + 1, !.todo = << ValD(Types[x[2]].a[1], x[3], x[5], x[6], Append(x[4], m.n + 1)) >> \o rest]
    [] x[1] = "flat" ->
         [m EXCEPT !.n = @ + 1, !.todo = << Flat(Types[x[2]].a[1], x[3], x[6], x[5], Append(x[4], m.n + 1)) >> \o rest]
    [] x[1] = "fin" -> [m EXCEPT !.todo = Fin(Tail(x[2]), x[3]) \o rest]
    [] x[1] = "key" -> [m EXCEPT !.todo = rest]
    [] x[1] = "close" -> [m EXCEPT !.todo = rest, !.open = SubSeq(@, 1, Len(@) - 1)]
    [] x[1] = "val" /\ (Types[x[2]].k = "opt" \/ IsAtomic(x[2])) -> [m EXCEPT !.todo = Fin(x[4], x[5]) \o rest]
    [] x[1] = "val" ->
         [m EXCEPT !.open = Append(@, x[6]),
                   !.todo = Content(x[2], x[3], x[5]) \o << CloseItem(Closing(x[2]), x[6], x[5]) >> \o Fin(x[4], x[5]) \o rest])

\* all events of a value
RECURSIVE RunSer(_, _)
RunSer(m, evs) ==
  IF m.s # "run" THEN <<m.s, evs>>
  ELSE LET o == Obs(m) IN RunSer(TLCEval(After(m)), IF o[1] = "E" THEN Append(evs, o[2]) ELSE evs)
EventsOf(i, v) == RunSer(Norm(SerStart(i, v)), <<>>)
=============================================================================
