------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* Which straight-line programs over the public interface are safe, that   *)
(* is, never touch what somebody still borrows.  A program is a sequence   *)
(* of operations Ops[o] = [t, new, sh, mu, from, mv, rd, wr, forever,      *)
(* never]: source text; the variable it makes (or ""), which borrows sh    *)
(* (shared) and mu (exclusively) and takes over the loans of from and mv;  *)
(* mv: variables moved; rd, wr: variables read or changed for the moment;  *)
(* forever: the result has to live as long as the program; never: there is *)
(* no safe program with this operation.  Dropping: variables whose end may *)
(* use what they borrow.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Ops, Dropping

Touched(o) == o.sh \cup o.mu \cup o.from \cup o.mv \cup o.rd \cup o.wr

\* loans are <<borrowed variable, exclusively>>
Makers(p, x) == {i \in 1..Len(p) : Ops[p[i]].new = x}
MadeAt(p, x) == LET M == Makers(p, x) IN IF M = {} THEN 0 ELSE CHOOSE k \in M : TRUE
RECURSIVE Loans(_, _)
Loans(p, x) ==
  LET i == MadeAt(p, x) IN
  IF i = 0 THEN {}
  ELSE LET o == Ops[p[i]] q == SubSeq(p, 1, i - 1) IN
       {<<y, FALSE>> : y \in o.sh} \cup {<<y, TRUE>> : y \in o.mu}
       \cup UNION {Loans(q, y) : y \in o.from \cup o.mv \cup o.sh \cup o.mu}

Moved(p, x) == \E i \in 1..Len(p) : x \in Ops[p[i]].mv
NeededAfter(p, x, i) == \/ \E j \in (i + 1)..Len(p) : x \in Touched(Ops[p[j]])
                        \/ x \in Dropping /\ ~Moved(p, x)
Made(p) == {Ops[p[i]].new : i \in 1..Len(p)} \ {""}

\* statement i touches y, somebody who borrows y is needed later
Conflict(p, i, y, hard) ==
  \E x \in Made(SubSeq(p, 1, i - 1)) :
     /\ x # y
     /\ NeededAfter(p, x, i) \/ (x \in Touched(Ops[p[i]]) /\ x \notin Ops[p[i]].mv)
     /\ \E l \in Loans(p, x) : l[1] = y /\ (hard \/ l[2])
Wrong(p, i) ==
  LET o == Ops[p[i]] q == SubSeq(p, 1, i - 1) IN
  \/ o.never
  \/ \E y \in o.rd \cup o.sh : Conflict(p, i, y, FALSE)
  \/ \E y \in o.wr \cup o.mu \cup o.mv : Conflict(p, i, y, TRUE)
  \/ o.forever /\ (o.sh \cup o.mu # {} \/ UNION {Loans(q, y) : y \in o.from \cup o.mv} # {})

\* late: the variables everything starts with are declared last, so they end
\* first.  If the borrower was moved into a call before that, the compiler may
\* still think of its end (when the call unwinds), which is left open.
FromBase(p, x) == \E l \in Loans(p, x) : l[1] \notin Made(p)
WrongEnd(p) == \E x \in Made(p) : x \in Dropping /\ ~Moved(p, x) /\ FromBase(p, x)
OpenEnd(p) == \E x \in Made(p) : x \in Dropping /\ Moved(p, x) /\ FromBase(p, x)

Verdict(p, late) == IF (\E i \in 1..Len(p) : Wrong(p, i)) \/ (late /\ WrongEnd(p)) THEN "reject"
                    ELSE IF late /\ OpenEnd(p) THEN "open" ELSE "accept"
=============================================================================
