------------------------------ MODULE DebugFmt ------------------------------
(***************************************************************************)
(* The debug notation of a value, from its events.  Text is a sequence of  *)
(* code points.  An event comes with its descriptor's name, <<"n", _, name>>*)
(* or <<"-">>, and with the notation of its atom (except for bytes).       *)
(***************************************************************************)
EXTENDS Integers, Sequences

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ByteText(b) ==
  CASE b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>>
    [] b = 92 -> <<92, 92>> [] b = 34 -> <<92, 34>> [] b = 0 -> <<92, 48>>
    [] b \in 32..126 /\ b # 92 /\ b # 34 -> <<b>>
    [] OTHER -> <<92, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE Bytes(_)
Bytes(bs) == IF bs = <<>> THEN <<>> ELSE ByteText(Head(bs)) \o Bytes(Tail(bs))
AtomText(e) == IF e[1][1] = "bytes" THEN <<98, 34>> \o Bytes(e[1][2]) \o <<34>> ELSE e[3]

Opens(e) == e[1] \in {<<"M">>, <<"S">>}
Closes(e) == e[1] \in {<<"m">>, <<"s">>}

\* names of maps are always shown, those of plain lists are not
NameText(e) ==
  IF e[2][1] = "-" \/ (e[1] = <<"S">> /\ e[2][2] \in {"Vec", "slice"}) THEN <<>> ELSE e[2][3] \o <<32>>

RECURSIVE Pad(_)
Pad(d) == IF d = 0 THEN <<>> ELSE <<32, 32, 32, 32>> \o Pad(d - 1)
Sep == <<44, 32>>
Colon == <<58, 32>>
Newline == <<10>>

\* one value at position p: <<text, position behind it>>
RECURSIVE Value(_, _, _, _)
\* what is in a container: n entries (keys and values counted) were written
RECURSIVE Inside(_, _, _, _, _, _, _)
Value(evs, p, pretty, d) ==
  LET e == evs[p] IN
  IF ~Opens(e) THEN <<AtomText(e), p + 1>>
  ELSE LET map == e[1] = <<"M">>
           c == Inside(evs, p + 1, pretty, d + 1, map, 0, <<>>)
           o == IF map THEN <<123>> ELSE <<91>>
           q == IF map THEN <<125>> ELSE <<93>>
       IN <<NameText(e) \o o \o c[1] \o (IF pretty /\ c[1] # <<>> THEN Pad(d) ELSE <<>>) \o q, c[2]>>
Inside(evs, p, pretty, d, map, n, acc) ==
  IF Closes(evs[p]) THEN <<acc, p + 1>>
  ELSE LET v == Value(evs, p, pretty, d)
           isvalue == map /\ n % 2 = 1
           before == IF isvalue THEN Colon
                     ELSE IF pretty THEN (IF n = 0 THEN Newline ELSE <<>>) \o Pad(d)
                     ELSE IF n = 0 THEN <<>> ELSE Sep
           after == IF pretty /\ (isvalue \/ ~map) THEN <<44>> \o Newline ELSE <<>>
       IN Inside(evs, v[2], pretty, d, map, n + 1, acc \o before \o v[1] \o after)

\* the whole text; the events are exactly one value
Text(evs, pretty) == Value(evs, 1, pretty, 0)[1]
Whole(evs) == Value(evs, 1, FALSE, 0)[2] = Len(evs) + 1
=============================================================================
