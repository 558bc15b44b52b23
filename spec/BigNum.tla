------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Naturals of any size as limbs of three decimal digits, least first (TLC *)
(* integers have 32 bits), and correct rounding to binary floating point.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, TLCExt, SequencesExt

Base == 1000

RECURSIVE TrimB(_)
TrimB(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN TrimB(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* decimal digits, most significant first
BigOf(d) ==
  LET n == Len(d)
      D(i) == IF i < n THEN d[n - i] ELSE 0
  IN TrimB([j \in 1..((n + 2) \div 3) |-> D(3 * (j - 1)) + 10 * D(3 * (j - 1) + 1) + 100 * D(3 * (j - 1) + 2)])

RECURSIVE SumCol(_, _, _, _, _)
SumCol(a, b, k, i, acc) == IF i > Len(a) \/ i > k THEN acc
                           ELSE IF k + 1 - i > Len(b) THEN SumCol(a, b, k, i + 1, acc)
                           ELSE SumCol(a, b, k, i + 1, acc + a[i] * b[k + 1 - i])

\* columns may be larger than a limb
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, c : << Append(acc[1], (c + acc[2]) % Base), (c + acc[2]) \div Base >>, << <<>>, 0 >>, cols)
  IN TrimB(r[1] \o << r[2] % Base, (r[2] \div Base) % Base, r[2] \div (Base * Base) >>)

Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> SumCol(a, b, k, 1, 0)])
MulS(a, n) == Carry([k \in 1..Len(a) |-> a[k] * n])
AddS(a, n) == Carry(IF a = <<>> THEN <<n>> ELSE [a EXCEPT ![1] = @ + n])
\* a is larger
RECURSIVE SubS(_, _, _)
SubS(a, i, n) == IF a[i] >= n THEN TrimB([a EXCEPT ![i] = @ - n])
                 ELSE SubS([a EXCEPT ![i] = @ + Base - n], i + 1, 1)

LtB(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
LeB(a, b) == a = b \/ LtB(a, b)

One == <<1>>
RECURSIVE PowTable(_)
PowTable(n) == IF n = 0 THEN << One >> ELSE LET p == PowTable(n - 1) IN Append(p, MulS(p[n], 65536))
\* 2^0, 2^16, 2^32 ...
Pow16 == TLCEval(PowTable(160))
Pow2(n) == MulS(Pow16[(n \div 16) + 1], 2^(n % 16))
Mul2(a, n) == IF n = 0 THEN a ELSE IF n < 16 THEN MulS(a, 2^n) ELSE Mul(a, Pow2(n))
Mul10(a, n) == IF a = <<>> THEN <<>> ELSE [j \in 1..(n \div 3) |-> 0] \o MulS(a, 10^(n % 3))

----------------------------------------------------------------------------
(* formats: bits of the significand, smallest and largest exponent of the  *)
(* unit in the last place                                                  *)
F64 == [p |-> 53, lo |-> -1074, hi |-> 971]
F32 == [p |-> 24, lo |-> -149, hi |-> 104]

Pos(n) == IF n > 0 THEN n ELSE 0

\* x * 2^e2 is above, below or at n * 10^e10 * 2^b: -1, 0, 1
Cmp(x, e2, n, e10, b) ==
  LET e == e2 - b
      l == Mul10(Mul2(x, Pos(e)), Pos(0 - e10))
      r == Mul10(Mul2(n, Pos(0 - e)), Pos(e10))
  IN IF l = r THEN 0 ELSE IF LtB(l, r) THEN -1 ELSE 1

\* n * 10^e10 * 2^b (n big, not negative) rounded to nearest, ties to even, is
\* the float with the given class, significand (digits) and exponent
\* magnitudes that cannot be compared cheaply are decided by their size
Nearest(fmt, n, e10, b, cls, mant, e2) ==
  IF n = <<>> THEN cls = 0
  ELSE IF e10 + 3 * Len(n) - 2 > 400 THEN cls = 2
  ELSE IF e10 + 3 * Len(n) < -400 THEN cls = 0
  ELSE
  LET m == BigOf(mant) IN
  CASE cls = 0 -> Cmp(One, fmt.lo - 1, n, e10, b) >= 0
    [] cls = 2 -> Cmp(SubS(Pow2(fmt.p + 1), 1, 1), fmt.hi - 1, n, e10, b) <= 0
    [] cls = 1 ->
         LET m4 == MulS(m, 4)
             tight == m = Pow2(fmt.p - 1) /\ e2 > fmt.lo
             low == Cmp(SubS(m4, 1, IF tight THEN 1 ELSE 2), e2 - 2, n, e10, b)
             up == Cmp(AddS(m4, 2), e2 - 2, n, e10, b)
             even == mant[Len(mant)] % 2 = 0
         IN /\ low < 0 \/ (low = 0 /\ even)
            /\ up > 0 \/ (up = 0 /\ even)
    [] OTHER -> FALSE
=============================================================================
