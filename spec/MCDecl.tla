------------------------------- MODULE MCDecl -------------------------------
(***************************************************************************)
(* All declarations with a few attribute items, grown item by item.        *)
(***************************************************************************)
EXTENDS Decl, TLC, CSV, Json, IOUtils

CONSTANTS Family, MaxItems, MaxBad, Out

VARIABLE d

I(m, v, t) == [m |-> m, v |-> v, t |-> t]
Bad(t) == I("malformed", <<>>, t)
X == <<120>>         \* x
AB == <<97, 66>>     \* aB

\* an item with a leading # is an attribute of its own
GoodItems == {
  I("rename", X, "rename = \"x\""), I("rename_all", <<4>>, "rename_all = \"camelCase\""),
  I("default", <<>>, "default"), I("default_fn", <<>>, "default = \"mk\""),
  I("skip_optionals", <<>>, "skip_serializing_optionals"),
  I("alias", AB, "alias = \"aB\""), I("flatten", <<>>, "flatten"),
  I("skip_if", <<>>, "skip_serializing_if = \"sk\""), I("empty", <<>>, "#[deser()]")}
BadItems == {
  Bad("rename"), Bad("rename = 1"), Bad("rename(\"x\")"), Bad("rename = b\"x\""), Bad("rename_all = \"CamelCase\""), Bad("rename_all"), Bad("rename_all = \"\""),
  Bad("rename_all = true"), Bad("default = 1"), Bad("default = \"1 + 2\""), Bad("default = \"\""), Bad("default(\"mk\")"), Bad("skip_serializing_optionals = \"x\""), Bad("alias"),
  Bad("alias = 'x'"), Bad("flatten = true"), Bad("skip_serializing_if"), Bad("skip_serializing_if = \"|x| true\""), Bad("skip_serializing_if = 1"), Bad("unknown"), Bad("unknown = \"x\""),
  Bad("\"x\""), Bad("1"), Bad("#[deser]"), Bad("#[deser = \"x\"]"), Bad("rename = mk"), Bad("skip_serializing_if = sk"), Bad("#[deser(rename = )]"), Bad("#[deser{rename}]"),
  Bad("Rename = \"x\""), Bad("deser::rename = \"x\"")}

Part(id, shape) == [id |-> id, shape |-> shape, a |-> <<>>]
A_B == <<97, 95, 98>>
Bb == <<66, 98>>
Skeleton(kind, der, gen, parts) == [kind |-> kind, der |-> der, gen |-> gen, con |-> <<>>, parts |-> parts, scope |-> "plain"]
Ders == {"Serialize", "Deserialize"}
Shape(kind) == IF kind \in {"struct", "newtype", "tuple"} THEN "field" ELSE "unit"

\* one attribute too many, or at the wrong place
Attr == {Skeleton(k, der, "", IF k = "enum" THEN <<Part(Bb, "unit"), Part(<<67>>, "unit")>>
                              ELSE IF k = "newtype" THEN <<Part(<<48>>, "field")>>
                              ELSE <<Part(A_B, "field"), Part(<<99>>, "field")>>) : k \in {"struct", "enum", "newtype"}, der \in Ders}
\* names that collide or not
Ids == {A_B, AB, <<97, 98>>, <<65, 95, 66>>, <<97, 98, 95>>}
VIds == {<<65, 66>>, <<65, 98>>, <<65, 95, 66>>, <<65, 95, 98>>, <<65>>}
\* leading underscores; letters that are not ASCII: \u00e4 \u00c4
OddIds == {<<<<95, 97>>, <<97>>>>, <<<<228>>, <<196>>>>, <<<<97, 95, 228>>, <<97, 228>>>>}
OddVIds == {<<<<228>>, <<196>>>>, <<<<196, 98>>, <<228, 98>>>>, <<<<65, 228>>, <<97, 228>>>>}
Named == {Skeleton("struct", "Deserialize", "", <<Part(i, "field"), Part(j, "field")>>) : i \in Ids, j \in Ids}
         \cup {Skeleton("enum", "Deserialize", "", <<Part(i, "unit"), Part(j, "unit")>>) : i \in VIds, j \in VIds}
         \cup {Skeleton("struct", "Deserialize", "", <<Part(p[1], "field"), Part(p[2], "field")>>) : p \in OddIds}
         \cup {Skeleton("enum", "Deserialize", "", <<Part(p[1], "unit"), Part(p[2], "unit")>>) : p \in OddVIds}
Distinct(s) == s.parts[1].id # s.parts[2].id
Renames == {I("rename", X, "rename = \"x\""), I("rename", <<97, 95, 98>>, "rename = \"a_b\""), I("rename", <<65, 66>>, "rename = \"AB\"")}
Aliases == {I("alias", X, "alias = \"x\""), I("alias", AB, "alias = \"aB\""), I("alias", <<97, 45, 98>>, "alias = \"a-b\"")}
Rules == {I("rename_all", <<i>>, "rename_all = \"" \o RuleNames[i] \o "\"") : i \in 1..8}
\* forms that can or cannot be derived, in all kinds of places
Gens(der) == {"", "T", "const", "where", "bound", "dflt", "two", "mixed", "later"} \cup (IF der = "Serialize" THEN {"lt", "lttwo"} ELSE {})
Scopes == {"plain", "shadowed", "raw", "private", "generated", "function", "names", "attrs"}
Fields(n) == SubSeq(<<Part(A_B, "field"), Part(<<99>>, "field"), Part(<<120>>, "field")>>, 1, n)
Bare == {"", "const"}
Forms == {[s EXCEPT !.scope = sc] : sc \in Scopes, s \in
  UNION {{Skeleton("struct", der, g, Fields(n)) : g \in (IF n = 0 THEN Bare ELSE Gens(der))} : der \in Ders, n \in {0, 1, 3}}
  \cup UNION {{Skeleton("newtype", der, g, Fields(1)) : g \in Gens(der)} : der \in Ders}
  \cup {Skeleton("tuple", der, g, Fields(2)) : der \in Ders, g \in {"", "T"}}
  \cup {Skeleton(k, der, "", <<>>) : k \in {"tuple0", "unit"}, der \in Ders}
  \cup {Skeleton("union", der, "", Fields(1)) : der \in Ders}
  \cup {Skeleton("enum", der, g, p) : der \in Ders, g \in Bare, p \in
        {<<Part(Bb, "unit")>>} \cup {<<Part(<<65>>, "unit"), Part(Bb, s), Part(<<67>>, t)>> : s \in {"unit", "tuple", "named"}, t \in {"unit", "tuple"}}}}

\* words that are almost the name of a rule or of an attribute
Lows == "abcdefghijklmnopqrstuvwxyz"
Ups == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ch(s, i) == SubSeq(s, i, i)
Where(c, s) == {i \in 1..Len(s) : Ch(s, i) = c}
To(c, a, b) == IF Where(c, a) = {} THEN c ELSE Ch(b, CHOOSE i \in Where(c, a) : TRUE)
Swap(c) == IF Where(c, Lows) # {} THEN To(c, Lows, Ups) ELSE IF Where(c, Ups) # {} THEN To(c, Ups, Lows)
           ELSE IF c = "_" THEN "-" ELSE IF c = "-" THEN "_" ELSE c
Other(c, k) == CASE k = "up" -> To(c, Lows, Ups) [] k = "low" -> To(c, Ups, Lows) [] k = "swap" -> Swap(c)
                 [] OTHER -> IF c \in {"_", "-"} THEN k ELSE c
RECURSIVE Each(_, _)
Each(s, k) == IF s = "" THEN "" ELSE Other(Ch(s, 1), k) \o Each(SubSeq(s, 2, Len(s)), k)
Put(s, i, c) == SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s))
Near(s) == UNION {{Put(s, i, ""), Put(s, i, Ch(s, i) \o Ch(s, i)), Put(s, i, Swap(Ch(s, i)))} : i \in 1..Len(s)}
  \cup {SubSeq(s, 1, i - 1) \o Ch(s, i + 1) \o Ch(s, i) \o SubSeq(s, i + 2, Len(s)) : i \in 1..(Len(s) - 1)}
  \cup {SubSeq(s, 1, i) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), c \in {"_", "-", " "}}
  \cup {Each(s, k) : k \in {"up", "low", "swap", "", "_", "-", " "}}
RuleSet == {RuleNames[i] : i \in 1..8}
Words == {"rename", "rename_all", "default", "skip_serializing_optionals", "alias", "flatten", "skip_serializing_if"}
Argument(w) == CASE w \in {"rename", "alias"} -> {" = \"x\""} [] w = "rename_all" -> {" = \"camelCase\""} [] w = "default" -> {"", " = \"mk\""}
                 [] w = "skip_serializing_if" -> {" = \"sk\""} [] OTHER -> {""}
BadRules == {Bad("rename_all = \"" \o n \o "\"") : n \in UNION {Near(r) : r \in RuleSet} \ RuleSet}
BadWords == UNION {{Bad(n \o a) : n \in Near(w) \ (Words \cup {" " \o w, w \o " "}), a \in Argument(w)} : w \in Words} \ {Bad(""), Bad(" = \"x\"")}
\* there is no doubt about them wherever they are
Almost == LET R == {s \in Attr : s.kind # "newtype"} IN
  {[s EXCEPT !.con = <<i>>] : s \in {s \in R : s.der = "Deserialize"}, i \in BadRules}
  \cup {[s EXCEPT !.con = <<i>>] : s \in {s \in R : s.der = "Serialize"}, i \in BadWords}
  \cup {[s EXCEPT !.parts[2].a = <<i>>] : s \in {s \in R : s.der = "Deserialize"}, i \in BadWords}

Init == d \in CASE Family = "near" -> Almost [] Family = "attr" -> Attr [] Family = "name" -> {s \in Named : Distinct(s)} [] Family = "form" -> Forms

Items == CASE Family = "attr" -> GoodItems \cup BadItems [] Family = "name" -> Renames \cup Aliases [] OTHER -> {}
RECURSIVE Count(_, _)
Count(items, bad) == IF items = <<>> THEN 0 ELSE (IF ~bad \/ Head(items).m = "malformed" THEN 1 ELSE 0) + Count(Tail(items), bad)
All == d.con \o d.parts[1].a \o (IF Len(d.parts) > 1 THEN d.parts[2].a ELSE <<>>)
CanAdd(i) == Count(All, FALSE) < MaxItems /\ (i.m = "malformed" => Count(All, TRUE) < MaxBad)

AddCon == \E i \in (IF Family = "name" THEN Rules ELSE Items) : CanAdd(i) /\ (Family = "name" => d.con = <<>>) /\ d' = [d EXCEPT !.con = Append(@, i)]
AddPart == \E k \in 1..(IF Family = "name" THEN 2 ELSE 1), i \in Items : k <= Len(d.parts) /\ CanAdd(i)
             /\ (Family = "name" => \A j \in 1..Len(d.parts[k].a) : d.parts[k].a[j].m # i.m)
             /\ d' = [d EXCEPT !.parts[k].a = Append(@, i)]
Next == Family \notin {"form", "near"} /\ d.parts # <<>> /\ (AddCon \/ AddPart)
Spec == Init /\ [][Next]_d

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* the order of the attributes does not matter, and a rejected declaration is
\* not made acceptable by saying more
Order == Verdict([d EXCEPT !.con = Rev(@), !.parts = [k \in 1..Len(d.parts) |-> [d.parts[k] EXCEPT !.a = Rev(@)]]]) = Verdict(d)
Known == Verdict(d) \in {"accept", "reject", "open"}
Malformed == Family \in {"attr", "near"} /\ Count(All, TRUE) > 0 => Verdict(d) = "reject"
Write == IF Out # "" THEN CSVWrite("%1$s", <<ToJson([op |-> "decl"] @@ d)>>, IOEnv.VH_OUT) ELSE TRUE
Inv == Order /\ Known /\ Malformed /\ Write
=============================================================================
