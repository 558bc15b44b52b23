------------------------------- MODULE Casing -------------------------------
(* Names of fields and variants under the rename_all rules (code points). *)
EXTENDS Naturals, Sequences

US == 95
Dash == 45
IsLow(c) == c \in 97..122
IsUp(c) == c \in 65..90
Up(c) == IF IsLow(c) THEN c - 32 ELSE c
Low(c) == IF IsUp(c) THEN c + 32 ELSE c
UpS(s) == [i \in 1..Len(s) |-> Up(s[i])]
LowS(s) == [i \in 1..Len(s) |-> Low(s[i])]
Replace(s, x, y) == [i \in 1..Len(s) |-> IF s[i] = x THEN y ELSE s[i]]

\* words start after an underscore; the underscore is dropped
Camelize(s, first) ==
  LET S == {i \in 1..Len(s) : s[i] # US}
      Cap(i) == IF i = 1 THEN first ELSE s[i - 1] = US \/ (first /\ \A j \in 1..(i - 1) : s[j] = US)
      T == [i \in 1..Len(s) |-> IF Cap(i) THEN Up(s[i]) ELSE s[i]]
  IN SelectSeq(T, LAMBDA c : c # US)

FieldCase(ra, s) ==
  CASE ra = "" -> s
    [] ra \in {"lowercase", "snake_case"} -> s
    [] ra \in {"UPPERCASE", "SCREAMING_SNAKE_CASE"} -> UpS(s)
    [] ra = "PascalCase" -> Camelize(s, TRUE)
    [] ra = "camelCase" -> Camelize(s, FALSE)
    [] ra = "kebab-case" -> Replace(s, US, Dash)
    [] ra = "SCREAMING-KEBAB-CASE" -> UpS(Replace(s, US, Dash))

RECURSIVE SplitUpper(_, _, _)
SplitUpper(s, i, sep) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF i > 1 /\ IsUp(s[i]) THEN <<sep>> ELSE <<>>) \o <<s[i]>> \o SplitUpper(s, i + 1, sep)

VariantCase(ra, s) ==
  CASE ra \in {"", "PascalCase"} -> s
    [] ra = "lowercase" -> LowS(s)
    [] ra = "UPPERCASE" -> UpS(s)
    [] ra = "camelCase" -> <<Low(s[1])>> \o SubSeq(s, 2, Len(s))
    [] ra = "snake_case" -> LowS(SplitUpper(s, 1, US))
    [] ra = "SCREAMING_SNAKE_CASE" -> UpS(SplitUpper(s, 1, US))
    [] ra = "kebab-case" -> LowS(SplitUpper(s, 1, Dash))
    [] ra = "SCREAMING-KEBAB-CASE" -> UpS(SplitUpper(s, 1, Dash))
=============================================================================
