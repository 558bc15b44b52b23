-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* The data model: types (a constant table, read from the same file the    *)
(* Rust harness is generated from), values in canonical form, atoms, and   *)
(* what each type makes of an atom.  Strings are sequences of code points, *)
(* integers are sign and decimal digits (TLC integers have 32 bits).       *)
(***************************************************************************)
EXTENDS BigNum, Casing, FiniteSets, Json, IOUtils

Types == TLCEval(JsonDeserialize(IOEnv.VH_TYPES))
NTypes == Len(Types)

----------------------------------------------------------------------------
(* digits *)
LtDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
LeDigits(a, b) == a = b \/ LtDigits(a, b)

D255 == <<2,5,5>>
D127 == <<1,2,7>>
D128 == <<1,2,8>>
D65535 == <<6,5,5,3,5>>
D32767 == <<3,2,7,6,7>>
D32768 == <<3,2,7,6,8>>
DU32 == <<4,2,9,4,9,6,7,2,9,5>>
DI32 == <<2,1,4,7,4,8,3,6,4,7>>
DI32N == <<2,1,4,7,4,8,3,6,4,8>>
DU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
DI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
DI64N == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

MaxOf(k) == CASE k = "u8" -> D255 [] k = "u16" -> D65535 [] k = "u32" -> DU32
              [] k \in {"u64", "usize"} -> DU64
              [] k = "i8" -> D127 [] k = "i16" -> D32767 [] k = "i32" -> DI32
              [] k \in {"i64", "isize"} -> DI64
\* largest magnitude of a negative number
MinOf(k) == CASE k \in {"u8", "u16", "u32", "u64", "usize"} -> <<0>>
              [] k = "i8" -> D128 [] k = "i16" -> D32768 [] k = "i32" -> DI32N
              [] k \in {"i64", "isize"} -> DI64N
IntKinds == {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"}
SignedKinds == {"i8", "i16", "i32", "i64", "isize"}
Fits(k, neg, d) == IF neg = 1 THEN LeDigits(d, MinOf(k)) ELSE LeDigits(d, MaxOf(k))

RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE NatOf(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)

\* ASCII strings as code points
Alphabet == "0123456789abcdefghijklmnopqrstuvwxyz"

----------------------------------------------------------------------------
(* floats: <<"f", class, negative, significand, exponent, bits>> is a float *)
(* (of the format of its type); <<"fa", negative, digits, exponent>> is the *)
(* number digits * 10^exponent that has to be rounded to the nearest float; *)
(* <<"ff", atom>> is a 64 bit float to be narrowed                          *)

FmtOf(k) == IF k = "f32" THEN F32 ELSE F64
IntAsFloat(neg, d) == <<"fa", neg, d, 0>>

\* a float atom given to the float type k
FloatTo(k, a) == IF k = "f64" \/ a[2] # 1 THEN a ELSE <<"ff", a>>

FloatEq(k, s, f) ==
  /\ f[1] = "f"
  /\ CASE s[1] = "fa" -> Nearest(FmtOf(k), BigOf(s[3]), s[4], 0, f[2], f[4], f[5]) /\ (f[2] # 0 => f[3] = s[2])
       [] s[1] = "ff" -> LET a == s[2] IN f[3] = a[3] /\ Nearest(FmtOf(k), BigOf(a[4]), 0, a[5], f[2], f[4], f[5])
       [] s[1] = "f" -> s[6] = f[6]

----------------------------------------------------------------------------
(* names of declarations *)
\* the name of field j (or variant j) of type i, computed once
Names == TLCEval([i \in 1..NTypes |->
  LET t == Types[i] IN
  CASE t.k = "st" -> [j \in 1..Len(t.f) |-> IF t.f[j].hasrn = 1 THEN t.f[j].rn ELSE FieldCase(t.ra, t.f[j].id)]
    [] t.k = "en" -> [j \in 1..Len(t.v) |-> IF t.v[j].hasrn = 1 THEN t.v[j].rn ELSE VariantCase(t.ra, t.v[j].id)]
    [] OTHER -> <<>>])

Accepts(i, j, key) == \* field or variant j of declaration i is addressed by key
  LET t == Types[i]
      al == IF t.k = "st" THEN t.f[j].al ELSE t.v[j].al
  IN Names[i][j] = key \/ \E a \in 1..Len(al) : al[a] = key

----------------------------------------------------------------------------
(* wrappers that are invisible in the data *)
Transparent == {"box", "nt", "ref", "mutref", "probe"}

RECURSIVE Core(_)
Core(i) == IF Types[i].k \in Transparent THEN Core(Types[i].a[1]) ELSE i

\* the type below all options as well, and the number of options
RECURSIVE Strip(_)
Strip(i) == IF Types[i].k \in Transparent \cup {"opt"}
              THEN LET s == Strip(Types[i].a[1])
                   IN <<s[1], s[2] + (IF Types[i].k = "opt" THEN 1 ELSE 0)>>
              ELSE <<i, 0>>
Strips == TLCEval([i \in 1..NTypes |-> Strip(i)])
Cores == TLCEval([i \in 1..NTypes |-> Core(i)])

RECURSIVE SomeN(_, _)
SomeN(v, n) == IF n = 0 THEN v ELSE <<"some", SomeN(v, n - 1)>>

IsBytesElem(i) == Types[i].k = "u8"

----------------------------------------------------------------------------
(* routing of struct keys, through flattened fields; a bag takes every key *)
(* with its prefix, as field 0                                            *)
InBag(i, key) == LET p == Types[i].pre IN Len(p) <= Len(key) /\ SubSeq(key, 1, Len(p)) = p
RECURSIVE Route(_, _)
Route(i, key) ==  \* path of field numbers to the field that takes key, <<>> if none
  IF Types[Cores[i]].k = "bag" THEN (IF InBag(Cores[i], key) THEN <<0>> ELSE <<>>)
  ELSE LET c == Cores[i] t == Types[c]
      own == {j \in 1..Len(t.f) : t.f[j].flat = 0 /\ Accepts(c, j, key)}
      fl == {j \in 1..Len(t.f) : t.f[j].flat = 1 /\ Route(t.f[j].ty, key) # <<>>}
  IN IF own # {} THEN <<CHOOSE j \in own : TRUE>>
     ELSE IF fl = {} THEN <<>>
     ELSE LET j == CHOOSE x \in fl : \A y \in fl : x <= y
          IN <<j>> \o Route(t.f[j].ty, key)

\* the names a struct is written with, and the paths of the fields they are of
RECURSIVE Written(_)
Written(i) ==
  IF Types[Cores[i]].k = "bag" THEN {<<Types[Cores[i]].pre, <<0>>>>}
  ELSE LET c == Cores[i] t == Types[c]
      Of(j) == IF t.f[j].flat = 0 THEN {<<Names[c][j], <<j>>>>}
               ELSE {<<w[1], <<j>> \o w[2]>> : w \in Written(t.f[j].ty)}
  IN UNION {Of(j) : j \in 1..Len(t.f)}

----------------------------------------------------------------------------
(* what a type makes of an atom: <<"ok", value>> or <<"err", kind>> *)
Ok(v) == <<"ok", v>>
Err(k) == <<"err", k>>

ByteSeq(b) == <<"seq", [j \in 1..Len(b) |-> <<"int", 0, DigitsOf(b[j])>>]>>

AtomToCore(i, a) ==
  LET t == Types[i] k == t.k IN
  CASE k = "unit" -> IF a[1] = "null" THEN Ok(<<"null">>) ELSE Err("Unexpected")
    [] k = "bool" -> IF a[1] = "bool" THEN Ok(a) ELSE Err("Unexpected")
    [] k = "str" -> IF a[1] = "str" THEN Ok(a) ELSE Err("Unexpected")
    [] k = "char" -> IF a[1] = "char" THEN Ok(a)
                     ELSE IF a[1] = "str" /\ Len(a[2]) = 1 THEN Ok(<<"char", a[2][1]>>)
                     ELSE Err("Unexpected")
    [] k \in IntKinds ->
         IF a[1] = "u" THEN (IF Fits(k, 0, a[2]) THEN Ok(<<"int", 0, a[2]>>) ELSE Err("OutOfRange"))
         ELSE IF a[1] = "i" THEN (IF Fits(k, a[2], a[3]) THEN Ok(<<"int", a[2], a[3]>>) ELSE Err("OutOfRange"))
         ELSE Err("Unexpected")
    [] k \in {"f32", "f64"} ->
         IF a[1] = "u" THEN Ok(IntAsFloat(0, a[2]))
         ELSE IF a[1] = "i" THEN Ok(IntAsFloat(a[2], a[3]))
         ELSE IF a[1] = "f" THEN Ok(FloatTo(k, a))
         ELSE Err("Unexpected")
    [] k = "vec" -> IF a[1] = "bytes" /\ IsBytesElem(t.a[1]) THEN Ok(ByteSeq(a[2])) ELSE Err("Unexpected")
    [] k = "arr" -> IF a[1] = "bytes" /\ IsBytesElem(t.a[1])
                      THEN (IF Len(a[2]) = t.n THEN Ok(ByteSeq(a[2])) ELSE Err("WrongLength"))
                      ELSE Err("Unexpected")
    [] k = "en" -> IF a[1] # "str" THEN Err("Unexpected")
                   ELSE LET js == {j \in 1..Len(t.v) : Accepts(i, j, a[2])}
                        IN IF js = {} THEN Err("Unexpected") ELSE Ok(<<"en", CHOOSE j \in js : TRUE>>)
    [] OTHER -> Err("Unexpected")   \* maps, sets, tuples, structs

RECURSIVE AtomTo(_, _)
AtomTo(i, a) ==
  LET k == Types[i].k IN
  IF k = "opt" THEN
    IF a[1] = "null" THEN Ok(<<"none">>)
    ELSE LET r == AtomTo(Types[i].a[1], a) IN IF r[1] = "ok" THEN Ok(<<"some", r[2]>>) ELSE r
  ELSE IF k \in Transparent THEN AtomTo(Types[i].a[1], a)
  ELSE AtomToCore(i, a)

----------------------------------------------------------------------------
(* defaults *)
RECURSIVE DefaultVal(_)
DefaultVal(i) ==
  LET t == Types[i] k == t.k IN
  CASE k \in IntKinds -> <<"int", 0, <<0>>>>
    [] k \in {"f32", "f64"} -> <<"fa", 0, <<0>>, 0>>
    [] k = "unit" -> <<"null">>
    [] k = "bool" -> <<"bool", 0>>
    [] k \in {"str", "strref", "cow"} -> <<"str", <<>>>>
    [] k = "char" -> <<"char", 0>>
    [] k = "opt" -> <<"none">>
    [] k \in {"vec", "sl"} -> <<"seq", <<>>>>
    [] k \in {"bset", "hset"} -> <<"set", <<>>>>
    [] k \in {"bmap", "hmap", "bag"} -> <<"map", <<>>>>
    [] k \in Transparent -> DefaultVal(t.a[1])
    [] k = "arr" -> <<"seq", [j \in 1..t.n |-> DefaultVal(t.a[1])]>>
    [] k = "tup" -> <<"seq", [j \in 1..Len(t.a) |-> DefaultVal(t.a[j])]>>
    [] k = "st" -> <<"st", t.cv>>
    [] k = "en" -> <<"en", 1>>

----------------------------------------------------------------------------
(* equality of a value of the specification with one of the implementation *)
\* events; floats of both formats are compared as 64 bit floats
EvEq(a, b) == IF a[1] = "f" /\ b[1] = "f" THEN a[6] = b[6] ELSE a = b
EvsEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : EvEq(a[j], b[j])

\* a null cannot tell which of several nested optionals is absent
RECURSIVE Absent(_)
Absent(v) == v[1] = "none" \/ (v[1] = "some" /\ Absent(v[2]))

RECURSIVE ValEq(_, _, _)
ValEq(i, s, v) ==
  LET t == Types[i] k == t.k IN
  CASE k \in Transparent -> ValEq(t.a[1], s, v)
    [] k \in {"f32", "f64"} -> FloatEq(k, s, v)
    [] k = "opt" -> IF Absent(s) THEN Absent(v)
                    ELSE /\ s[1] = v[1]
                         /\ ValEq(t.a[1], s[2], v[2])
    [] k \in {"vec", "arr", "sl"} -> /\ v[1] = "seq" /\ Len(s[2]) = Len(v[2])
                               /\ \A j \in 1..Len(s[2]) : ValEq(t.a[1], s[2][j], v[2][j])
    [] k = "tup" -> /\ v[1] = "seq" /\ Len(s[2]) = Len(v[2])
                    /\ \A j \in 1..Len(s[2]) : ValEq(t.a[j], s[2][j], v[2][j])
    [] k = "st" -> /\ v[1] = "st" /\ Len(s[2]) = Len(v[2])
                   /\ \A j \in 1..Len(s[2]) : ValEq(t.f[j].ty, s[2][j], v[2][j])
    [] k \in {"bset", "hset"} ->   \* s has no duplicates
         /\ v[1] = "set" /\ Len(s[2]) = Len(v[2])
         /\ \A j \in 1..Len(s[2]) : \E m \in 1..Len(v[2]) : ValEq(t.a[1], s[2][j], v[2][m])
    [] k \in {"bmap", "hmap", "bag"} ->
         /\ v[1] = "map" /\ Len(s[2]) = Len(v[2])
         /\ \A j \in 1..Len(s[2]) : \E m \in 1..Len(v[2]) :
              ValEq(t.a[1], s[2][j][1], v[2][m][1]) /\ ValEq(t.a[2], s[2][j][2], v[2][m][2])
    [] OTHER -> s = v
=============================================================================
