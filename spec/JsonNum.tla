------------------------------ MODULE JsonNum -------------------------------
(***************************************************************************)
(* Numbers of JSON texts and the atoms they are delivered as.              *)
(***************************************************************************)
EXTENDS BigNum

LtDig(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A k \in 1..(i - 1) : a[k] = b[k]

MaxU == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
MinI == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

\* <<"num", negative, digits, exponent, integral>> fits 64 bits
Exact(e) == e[5] /\ ~LtDig(IF e[2] = 1 THEN MinI ELSE MaxU, e[3])

\* an integer atom as sign and digits
SignOf(a) == IF a[1] = "i" THEN a[2] ELSE 0
DigOf(a) == IF a[1] = "i" THEN a[3] ELSE a[2]
IsInt(a) == a[1] \in {"u", "i"}

\* the float atom got is the number e, rounded
RoundsTo(e, got) == /\ got[1] = "f"
                    /\ Nearest(F64, BigOf(e[3]), e[4], 0, got[2], got[4], got[5])
                    /\ got[2] # 0 => got[3] = e[2]

NumIs(e, got) ==
  IF Exact(e) THEN /\ IsInt(got) /\ DigOf(got) = e[3]
                   /\ e[3] # <<0>> => SignOf(got) = e[2]
  ELSE RoundsTo(e, got)
=============================================================================
