----------------------------- MODULE JsonParse ------------------------------
(***************************************************************************)
(* RFC 8259 as a pushdown machine that reads one byte per step.  A machine *)
(* that ends accepting has in evs the events the text denotes; numbers are *)
(* <<"num", negative, digits, exponent, integral>>.                        *)
(***************************************************************************)
EXTENDS BigNum

MaxExp == 1000000   \* exponents are cut off here (far beyond every float)

NoNum == [neg |-> 0, d |-> <<>>, fr |-> 0, int |-> TRUE, en |-> 0, ed |-> <<>>]

\* m   what is read: see the cases of JStep
\* st  open containers, innermost last: "m" or "s"
\* key a string that is read now is a key
\* s   code points of the string; u  missing bytes of a code point; h  hex
\*     digits; hs  high surrogate; n  number; lit  rest of a literal
\* why the kinds an error may have
JStart == [m |-> "value", st |-> <<>>, key |-> FALSE, evs |-> <<>>, s |-> <<>>, u |-> <<0, 0, 0, 0>>,
           h |-> <<0, 0>>, hs |-> 0, n |-> NoNum, lit |-> <<>>, lv |-> <<>>, why |-> {}]

Ws(b) == b \in {32, 9, 10, 13}
Digit(b) == b \in 48..57

Because(j, kinds) == [j EXCEPT !.m = "err", !.why = kinds]
Err_(j) == Because(j, {"Unexpected"})
\* a string or number that breaks off may be taken for one that is malformed
Cut(j) == Because(j, {"Unexpected", "EndOfFile"})
Emit_(j, e) == [j EXCEPT !.evs = Append(@, e)]

\* a token in the wrong place; it may be noticed first that it is no proper token
Misplaced(j, b) == IF b \in {34, 45, 110, 116, 102} \cup 48..57 THEN Because(j, {"Unexpected", "EndOfFile", "OutOfRange"}) ELSE Err_(j)

\* a value was completed
ValueDone(j) == [j EXCEPT !.m = "after"]

Open_(j, k, e) == [Emit_(j, <<e>>) EXCEPT !.st = Append(@, k), !.m = IF k = "m" THEN "key1" ELSE "first"]
Close_(j, k, e) == IF j.st = <<>> \/ j.st[Len(j.st)] # k THEN Err_(j)
                   ELSE ValueDone([Emit_(j, <<e>>) EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)])

StrStart(j, key) == [j EXCEPT !.m = "str", !.s = <<>>, !.key = key]

StartValue(j, b) ==
  CASE b = 34 -> StrStart(j, FALSE)
    [] b = 123 -> Open_(j, "m", "M")
    [] b = 91 -> Open_(j, "s", "S")
    [] b = 110 -> [j EXCEPT !.m = "lit", !.lit = <<117, 108, 108>>, !.lv = <<"null">>]
    [] b = 116 -> [j EXCEPT !.m = "lit", !.lit = <<114, 117, 101>>, !.lv = <<"bool", 1>>]
    [] b = 102 -> [j EXCEPT !.m = "lit", !.lit = <<97, 108, 115, 101>>, !.lv = <<"bool", 0>>]
    [] b = 45 -> [j EXCEPT !.m = "minus", !.n = [NoNum EXCEPT !.neg = 1]]
    [] b = 48 -> [j EXCEPT !.m = "zero", !.n = [NoNum EXCEPT !.d = <<0>>]]
    [] b \in 49..57 -> [j EXCEPT !.m = "int", !.n = [NoNum EXCEPT !.d = <<b - 48>>]]
    [] OTHER -> Err_(j)

----------------------------------------------------------------------------
(* numbers *)
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE SmallNat(_)
SmallNat(d) == IF d = <<>> THEN 0 ELSE SmallNat(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]

ExpOf(n) == LET d == NoZeros(n.ed)
                e == IF n.ed = <<>> THEN 0 ELSE IF Len(d) > 6 THEN MaxExp ELSE SmallNat(d)
            IN (IF n.en = 1 THEN 0 - e ELSE e) - n.fr
NumEvent(n) == <<"num", n.neg, NoZeros(n.d), ExpOf(n), n.int>>

\* too large for a float
TooLarge(e) == Nearest(F64, BigOf(e[3]), e[4], 0, 2, <<0>>, 0)

NumDone(j) == LET e == NumEvent(j.n) IN
              IF TooLarge(e) THEN Because(j, {"OutOfRange"}) ELSE ValueDone(Emit_(j, e))

NumMode(m) == m \in {"zero", "int", "frac", "exp"}    \* a number may end here

----------------------------------------------------------------------------
After_(j, b) ==
  IF Ws(b) THEN j
  ELSE IF j.st = <<>> THEN Misplaced(j, b)
  ELSE LET k == j.st[Len(j.st)] IN
  CASE b = 44 -> [j EXCEPT !.m = IF k = "m" THEN "key" ELSE "value"]
    [] b = 125 -> Close_(j, "m", "m")
    [] b = 93 -> Close_(j, "s", "s")
    [] OTHER -> Misplaced(j, b)

\* first byte of a code point in a string
\* (the encoding may be checked late, after the end of the input was noticed)
Lead(j, b) ==
  CASE b < 128 -> [j EXCEPT !.s = Append(@, b)]
    [] b \in 194..223 -> [j EXCEPT !.m = "utf8", !.u = <<1, b - 192, 128, 191>>]
    [] b = 224 -> [j EXCEPT !.m = "utf8", !.u = <<2, 0, 160, 191>>]
    [] b \in (225..236) \cup {238, 239} -> [j EXCEPT !.m = "utf8", !.u = <<2, b - 224, 128, 191>>]
    [] b = 237 -> [j EXCEPT !.m = "utf8", !.u = <<2, 13, 128, 159>>]
    [] b = 240 -> [j EXCEPT !.m = "utf8", !.u = <<3, 0, 144, 191>>]
    [] b \in 241..243 -> [j EXCEPT !.m = "utf8", !.u = <<3, b - 240, 128, 191>>]
    [] b = 244 -> [j EXCEPT !.m = "utf8", !.u = <<3, 4, 128, 143>>]
    [] OTHER -> Cut(j)

Utf8(j, b) ==
  IF b < j.u[3] \/ b > j.u[4] THEN Cut(j)
  ELSE LET c == j.u[2] * 64 + (b - 128) IN
       IF j.u[1] = 1 THEN [j EXCEPT !.m = "str", !.s = Append(@, c)]
       ELSE [j EXCEPT !.u = <<@[1] - 1, c, 128, 191>>]

HexVal(b) == IF Digit(b) THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE 16

Hex(j, b) ==
  IF HexVal(b) = 16 THEN Err_(j)
  ELSE LET v == j.h[2] * 16 + HexVal(b) IN
  IF j.h[1] > 1 THEN [j EXCEPT !.h = <<@[1] - 1, v>>]
  ELSE IF j.hs # 0 THEN
    IF v \in 56320..57343 THEN [j EXCEPT !.m = "str", !.hs = 0, !.s = Append(@, 65536 + (j.hs - 55296) * 1024 + (v - 56320))]
    ELSE Err_(j)
  ELSE IF v \in 55296..56319 THEN [j EXCEPT !.m = "sur1", !.hs = v]
  ELSE IF v \in 56320..57343 THEN Err_(j)
  ELSE [j EXCEPT !.m = "str", !.s = Append(@, v)]

Escape(j, b) ==
  LET put(c) == [j EXCEPT !.m = "str", !.s = Append(@, c)] IN
  CASE b \in {34, 92, 47} -> put(b)
    [] b = 98 -> put(8)
    [] b = 102 -> put(12)
    [] b = 110 -> put(10)
    [] b = 114 -> put(13)
    [] b = 116 -> put(9)
    [] b = 117 -> [j EXCEPT !.m = "hex", !.h = <<4, 0>>]
    [] OTHER -> Err_(j)

StrByte(j, b) ==
  CASE b = 34 -> LET e == Emit_(j, <<"str", j.s>>) IN IF j.key THEN [e EXCEPT !.m = "colon"] ELSE ValueDone(e)
    [] b = 92 -> [j EXCEPT !.m = "esc"]
    [] b < 32 -> Err_(j)
    [] OTHER -> Lead(j, b)

JStep(j, b) ==
  LET m == j.m IN
  CASE m = "err" -> j
    [] m = "value" -> IF Ws(b) THEN j ELSE StartValue(j, b)
    [] m = "first" -> IF Ws(b) THEN j ELSE IF b = 93 THEN Close_(j, "s", "s") ELSE StartValue(j, b)
    [] m = "key1" -> IF Ws(b) THEN j ELSE IF b = 125 THEN Close_(j, "m", "m") ELSE IF b = 34 THEN StrStart(j, TRUE) ELSE Misplaced(j, b)
    [] m = "key" -> IF Ws(b) THEN j ELSE IF b = 34 THEN StrStart(j, TRUE) ELSE Misplaced(j, b)
    [] m = "colon" -> IF Ws(b) THEN j ELSE IF b = 58 THEN [j EXCEPT !.m = "value"] ELSE Misplaced(j, b)
    [] m = "after" -> After_(j, b)
    [] m = "lit" -> IF b # j.lit[1] THEN Err_(j)
                    ELSE IF Len(j.lit) = 1 THEN ValueDone(Emit_(j, j.lv)) ELSE [j EXCEPT !.lit = Tail(@)]
    [] m = "str" -> StrByte(j, b)
    [] m = "esc" -> Escape(j, b)
    [] m = "hex" -> Hex(j, b)
    [] m = "sur1" -> IF b = 92 THEN [j EXCEPT !.m = "sur2"] ELSE Err_(j)
    [] m = "sur2" -> IF b = 117 THEN [j EXCEPT !.m = "hex", !.h = <<4, 0>>] ELSE Err_(j)
    [] m = "utf8" -> Utf8(j, b)
    [] m = "minus" -> IF b = 48 THEN [j EXCEPT !.m = "zero", !.n.d = <<0>>]
                      ELSE IF Digit(b) THEN [j EXCEPT !.m = "int", !.n.d = <<b - 48>>] ELSE Err_(j)
    [] m = "int" /\ Digit(b) -> [j EXCEPT !.n.d = Append(@, b - 48)]
    [] m = "zero" /\ Digit(b) -> Err_(j)
    [] m \in {"zero", "int"} /\ b = 46 -> [j EXCEPT !.m = "dot", !.n.int = FALSE]
    [] m \in {"dot", "frac"} /\ Digit(b) -> [j EXCEPT !.m = "frac", !.n.d = Append(@, b - 48), !.n.fr = @ + 1]
    [] m = "dot" -> Err_(j)
    [] m \in {"zero", "int", "frac"} /\ b \in {69, 101} -> [j EXCEPT !.m = "e", !.n.int = FALSE]
    [] m = "e" /\ b = 43 -> [j EXCEPT !.m = "esign"]
    [] m = "e" /\ b = 45 -> [j EXCEPT !.m = "esign", !.n.en = 1]
    [] m \in {"e", "esign", "exp"} /\ Digit(b) -> [j EXCEPT !.m = "exp", !.n.ed = Append(@, b - 48)]
    [] m \in {"e", "esign"} -> Err_(j)
    [] NumMode(m) -> LET d == NumDone(j) IN IF d.m = "err" THEN d ELSE After_(d, b)

\* the input ends
JEnd(j) ==
  LET d == IF NumMode(j.m) THEN NumDone(j) ELSE j
  IN IF d.m = "after" /\ d.st = <<>> THEN [d EXCEPT !.m = "accept"]
     ELSE IF d.m = "err" THEN d
     ELSE IF d.m \in {"str", "utf8", "minus", "dot", "e", "esign"} THEN Cut(d)
     ELSE Because(d, {"EndOfFile"})

RECURSIVE Parse_(_, _, _)
Parse_(j, b, i) == IF i > Len(b) THEN JEnd(j) ELSE IF j.m = "err" THEN j ELSE Parse_(JStep(j, b[i]), b, i + 1)
Parse(b) == Parse_(JStart, b, 1)

=============================================================================
