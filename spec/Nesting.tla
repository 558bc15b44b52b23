------------------------------ MODULE Nesting -------------------------------
(***************************************************************************)
(* Deeply nested data: n containers inside each other, map or sequence by  *)
(* a repeated pattern, with or without a leaf.  A machine with constant    *)
(* state walks down and up again; what it emits per container is a word.   *)
(* Codes: 1 [  2 ]  3 {  4 }  5 the key  6 the leaf; or characters.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Map(pat, l) == pat[((l - 1) % Len(pat)) + 1] = "M"

\* bare: a map without content
Words == [seq |-> <<1>>, map |-> <<3, 5>>, bare |-> <<3>>, leaf |-> <<6>>, eseq |-> <<2>>, emap |-> <<4>>]
\* JSON: [   {"k":   leaf   ]   }
Chars(leaf) == [seq |-> <<91>>, map |-> <<123, 34, 107, 34, 58>>, bare |-> <<123>>, leaf |-> leaf, eseq |-> <<93>>, emap |-> <<125>>]

\* ph: down / leaf / up, level, position in the word
NStart(n) == [ph |-> IF n = 0 THEN "leaf" ELSE "down", l |-> IF n = 0 THEN 0 ELSE 1, p |-> 1]
Word(s, pat, n, leaf, W) ==
                   CASE s.ph = "down" -> IF ~Map(pat, s.l) THEN W.seq ELSE IF s.l = n /\ ~leaf THEN W.bare ELSE W.map
                     [] s.ph = "leaf" -> W.leaf
                     [] s.ph = "up" -> IF Map(pat, s.l) THEN W.emap ELSE W.eseq
Emits(s, pat, n, leaf, W) == Word(s, pat, n, leaf, W)[s.p]
NOver(s) == s.ph = "up" /\ s.l = 0

Move(s, pat, n, leaf) ==
  CASE s.ph = "down" -> IF s.l < n THEN [s EXCEPT !.l = @ + 1, !.p = 1]
                        ELSE IF leaf THEN [ph |-> "leaf", l |-> n, p |-> 1] ELSE [ph |-> "up", l |-> n, p |-> 1]
    [] s.ph = "leaf" -> [ph |-> "up", l |-> n, p |-> 1]
    [] s.ph = "up" -> [s EXCEPT !.l = @ - 1, !.p = 1]
NNext(s, pat, n, leaf, W) == IF s.p < Len(Word(s, pat, n, leaf, W)) THEN [s EXCEPT !.p = @ + 1] ELSE Move(s, pat, n, leaf)

\* open containers after what was just emitted, and before it
After(s) == CASE s.ph = "up" -> s.l - 1 [] OTHER -> s.l
Before(s) == CASE s.ph = "down" -> IF s.p = 1 THEN s.l - 1 ELSE s.l
               [] s.ph = "leaf" -> s.l
               [] s.ph = "up" -> 0 - 1

RECURSIVE CountMaps(_, _)
CountMaps(pat, n) == IF n = 0 THEN 0 ELSE CountMaps(pat, n - 1) + (IF Map(pat, n) THEN 1 ELSE 0)
\* number of things that are emitted altogether
Maps(pat, n) == (n \div Len(pat)) * CountMaps(pat, Len(pat)) + CountMaps(pat, n % Len(pat))
Total(pat, n, leaf, W) ==
  LET m == Maps(pat, n) IN
  m * (Len(W.map) + Len(W.emap)) + (n - m) * (Len(W.seq) + Len(W.eseq)) + (IF leaf THEN Len(W.leaf) ELSE IF n > 0 /\ Map(pat, n) THEN Len(W.bare) - Len(W.map) ELSE 0)
=============================================================================
