------------------------------ MODULE MCBorrow ------------------------------
(* All short programs over a part of the interface.                        *)
EXTENDS Api, FiniteSets, TLC, CSV, Json, IOUtils

CONSTANTS Part, N, Lates, Out

OpSet == CASE Part = "ser" -> SerOps [] Part = "de" -> DeOps [] Part = "json" -> JsonOps [] Part = "facts" -> Facts
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
OpSeq == TLCEval(SeqOf(OpSet))
Base == CASE Part = "ser" -> SerBase [] Part = "de" -> DeBase [] Part = "json" -> JsonBase [] OTHER -> {}
DropVars == CASE Part = "ser" -> SerDropping [] Part = "de" -> DeDropping [] OTHER -> {}

B == INSTANCE Borrow WITH Ops <- OpSeq, Dropping <- DropVars

VARIABLES prg, late
vars == <<prg, late>>

\* written in a way that the compiler has nothing else to complain about:
\* everything is made before it is used, once, and not used after it was moved
Alive(p) == (Base \cup B!Made(p)) \ UNION {OpSeq[p[i]].mv : i \in 1..Len(p)}
Fits(p, o) == B!Touched(OpSeq[o]) \subseteq Alive(p) /\ OpSeq[o].new \notin B!Made(p)

Init == prg = <<>> /\ late \in Lates
Next == /\ Len(prg) < N /\ \E o \in 1..Len(OpSeq) : Fits(prg, o) /\ prg' = Append(prg, o)
        \* there is no going on after what is not safe
        /\ B!Verdict(prg, FALSE) = "accept" /\ UNCHANGED late
Spec == Init /\ [][Next]_vars
LateAll == {TRUE, FALSE}
LateNo == {FALSE}

Ready == prg # <<>>
Names == [i \in 1..Len(prg) |-> [x |-> OpSeq[prg[i]].new, t |-> OpSeq[prg[i]].t, f |-> OpSeq[prg[i]].forever]]
Write == IF Out # "" /\ Ready THEN CSVWrite("%1$s", <<ToJson([op |-> "prg", part |-> Part, late |-> late, s |-> Names, safe |-> B!Verdict(prg, late)])>>, IOEnv.VH_OUT) ELSE TRUE

\* a program that only looks is safe, and a safe program has safe beginnings
\* except for what its variables do at their end
Looks == (\A i \in 1..Len(prg) : OpSeq[prg[i]].sh \cup OpSeq[prg[i]].mu \cup OpSeq[prg[i]].mv = {} /\ ~OpSeq[prg[i]].never) => B!Verdict(prg, late) = "accept"
Inv == Looks /\ Write
=============================================================================
