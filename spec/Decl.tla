-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Which declarations can be derived.  A declaration is                    *)
(*   [kind, der, gen, con, parts]                                          *)
(* with attribute items [m |-> meaning, v |-> argument (code points)]; the *)
(* container has some, and so has every part (field or variant).           *)
(* The verdict is "accept", "reject", or "open" where the documentation    *)
(* does not say.                                                           *)
(***************************************************************************)
EXTENDS Casing, FiniteSets

\* what can be said where; every other meaning, and everything malformed, is
\* to be rejected there
OnStruct  == {"rename", "rename_all", "default", "default_fn", "skip_optionals", "empty"}
OnField   == {"rename", "alias", "default", "default_fn", "flatten", "skip_if", "empty"}
OnVariant == {"rename", "alias", "empty"}
\* on these the documentation names less than what is taken for structs
OpenOnEnum == {"rename", "default", "default_fn", "skip_optionals"}
OpenOnNewtype == {"rename_all", "default", "default_fn", "skip_optionals"}

\* said at most once
Slot(m) == CASE m = "default_fn" -> "default" [] OTHER -> m
Repeated(items) == \E i \in 1..Len(items) : \E j \in 1..(i - 1) :
                     /\ Slot(items[i].m) = Slot(items[j].m)
                     /\ items[i].m \notin {"alias", "empty"}
Has(items, M) == \E i \in 1..Len(items) : items[i].m \in M
Only(items, M) == \A i \in 1..Len(items) : items[i].m \in M
Args(items, m) == [i \in {j \in 1..Len(items) : items[j].m = m} |-> items[i].v]
First(items, m) == items[CHOOSE i \in 1..Len(items) : items[i].m = m].v

RuleOf(d) == IF Has(d.con, {"rename_all"}) THEN First(d.con, "rename_all") ELSE <<>>
\* rename_all rules by their number (they are code points like every argument)
RuleNames == <<"lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE">>
Rule(d) == LET r == RuleOf(d) IN IF r = <<>> THEN "" ELSE RuleNames[r[1]]

NameOf(d, p) == IF Has(p.a, {"rename"}) THEN First(p.a, "rename")
                ELSE IF d.kind = "enum" THEN VariantCase(Rule(d), p.id) ELSE FieldCase(Rule(d), p.id)
AliasesOf(p) == LET S == SelectSeq(p.a, LAMBDA x : x.m = "alias") IN [i \in 1..Len(S) |-> S[i].v]
\* every name and alias that is listened to, in order
RECURSIVE Heard(_, _)
Heard(d, n) == IF n = 0 THEN <<>>
               ELSE LET p == d.parts[n] IN
                    Heard(d, n - 1) \o (IF Has(p.a, {"flatten"}) THEN <<>> ELSE <<NameOf(d, p)>> \o AliasesOf(p))
Ambiguous(d) == LET h == Heard(d, Len(d.parts)) IN \E i \in 1..Len(h) : \E j \in 1..(i - 1) : h[i] = h[j]

Sound(d, ok) == /\ \A i \in 1..Len(d.parts) :
                      LET a == d.parts[i].a IN
                      Only(a, ok) /\ ~Repeated(a) /\ ~(Has(a, {"flatten"}) /\ Has(a, {"default", "default_fn"}))
                /\ Only(d.con, OnStruct) /\ ~Repeated(d.con)

Verdict(d) ==
  CASE d.kind \in {"tuple", "tuple0", "unit", "union"} -> "reject"
    [] d.kind = "struct" ->
         IF ~Sound(d, OnField) THEN "reject"
         ELSE IF ~Ambiguous(d) THEN "accept"
         ELSE IF d.der = "Deserialize" THEN "reject" ELSE "open"
    [] d.kind = "newtype" ->
         IF ~Sound(d, {"empty"}) THEN "reject"
         ELSE IF Has(d.con, OpenOnNewtype) THEN "open" ELSE "accept"
    [] d.kind = "enum" ->
         IF d.gen # "" \/ ~Sound(d, OnVariant) \/ \E i \in 1..Len(d.parts) : d.parts[i].shape # "unit" THEN "reject"
         ELSE IF Has(d.con, OpenOnEnum) \/ Len(d.parts) = 0 THEN "open"
         ELSE IF ~Ambiguous(d) THEN "accept"
         ELSE IF d.der = "Deserialize" THEN "reject" ELSE "open"
=============================================================================
