------------------------------- MODULE Width --------------------------------
(***************************************************************************)
(* Wide data: containers of n elements that are all alike but for their    *)
(* number k, and long strings.  Whatever is observed of them is a list of  *)
(* records (a tag and integers), written down as runs                      *)
(*   <<tags, integers of the first, what they grow by, how many>>          *)
(* of groups of records.  This module says which runs; nothing in it       *)
(* depends on n but the counts.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Key0 == 1000000

Zeros(s) == [i \in 1..Len(s) |-> 0]
One(tag, ints) == << <<tag>>, ints, Zeros(ints), 1>>
\* a record of a group: tag, integers for k = 0, growth
R(tag, start, step) == <<tag, start, step>>
RECURSIVE Cat(_, _)
Cat(rs, i) == IF rs = <<>> THEN <<>> ELSE rs[1][i] \o Cat(Tail(rs), i)
Group(rs, n) == << [i \in 1..Len(rs) |-> rs[i][1]], Cat(rs, 2), Cat(rs, 3), n>>
Ones(rs) == [i \in 1..Len(rs) |-> One(rs[i][1], rs[i][2])]
Some(runs) == SelectSeq(runs, LAMBDA x : x[4] > 0)

IsMap(ct) == ct \in {"bmap", "hmap", "known", "open"}
\* kind of the keys and of the values or elements
KeyKind(r) == IF r.ct \in {"known", "open"} THEN "s" ELSE SubSeq(r.ek, 1, 1)
Kind(r) == IF r.ct \in {"bmap", "hmap"} THEN SubSeq(r.ek, 2, 2) ELSE r.ek

NameOf(ct) == CASE ct = "vec" -> "Vec" [] ct = "slice" -> "slice" [] ct = "arr" -> "array" [] ct = "bset" -> "BTreeSet" [] ct = "hset" -> "HashSet"
                [] ct = "bmap" -> "BTreeMap" [] ct = "hmap" -> "HashMap" [] ct = "known" -> "Known" [] ct = "open" -> "Open"

----------------------------------------------------------------------------
(* serialization: events with the name of the descriptor and the depth     *)
\* with paths: segments of the element, and those below it
Seg(r) == IF ~IsMap(r.ct) THEN "I" ELSE IF KeyKind(r) = "u" THEN "I" ELSE "K"
SegInt(r) == IF IsMap(r.ct) THEN Key0 ELSE 0
\* a record at the path of the element; below: more of the path
At(r, path, rec, below, bints) ==
  IF ~path THEN rec
  ELSE R(rec[1] \o "/" \o Seg(r) \o below, rec[2] \o <<SegInt(r)>> \o bints, rec[3] \o <<1>> \o Zeros(bints))
SerElem(r, p) ==
  LET k == Kind(r) IN
  CASE k = "u" -> << At(r, p, R("u:u32", <<0, 1>>, <<1, 0>>), "", <<>>) >>
    [] k = "o" -> << At(r, p, R("u:optional", <<0, 1>>, <<1, 0>>), "", <<>>) >>
    [] k = "s" -> << At(r, p, R("str:String", <<0, 1>>, <<1, 0>>), "", <<>>) >>
    [] k = "t" -> << R("B", <<0>>, <<1>>), At(r, p, R("u:Counted", <<0, 1>>, <<1, 0>>), "", <<>>), R("F", <<0>>, <<1>>) >>
    [] k = "l" -> << At(r, p, R("S:Vec", <<2>>, <<0>>), "", <<>>), At(r, p, R("u:u32", <<0, 2>>, <<1, 0>>), "I", <<0>>),
                     At(r, p, R("s:Vec", <<1>>, <<0>>), "", <<>>) >>
    [] k = "p" -> << At(r, p, R("M:Point", <<2>>, <<0>>), "", <<>>), R("str=x:str", <<2>>, <<0>>),
                     At(r, p, R("u:u32", <<0, 2>>, <<1, 0>>), "Kx", <<>>), At(r, p, R("m:Point", <<1>>, <<0>>), "", <<>>) >>
SerKey(r) == IF ~IsMap(r.ct) THEN <<>>
             ELSE IF r.ct = "open" THEN << R("str:str", <<Key0, 1>>, <<1, 0>>) >>
             ELSE IF KeyKind(r) = "u" THEN << R("u:u32", <<Key0, 1>>, <<1, 0>>) >> ELSE << R("str:String", <<Key0, 1>>, <<1, 0>>) >>
Root(p) == IF p THEN "/" ELSE ""
Own(r, p, name, value) == IF r.ct # "open" THEN <<>>
                          ELSE << One("str=" \o name \o ":str", <<1>>), One("u:u32" \o (IF p THEN "/K" \o name ELSE ""), <<value, 1>>) >>
SerRuns(r, p) ==
  LET c == NameOf(r.ct) IN
  << One((IF IsMap(r.ct) THEN "M:" ELSE "S:") \o c \o Root(p), <<1>>) >> \o Own(r, p, "a", 1)
  \o << Group(SerKey(r) \o SerElem(r, p), r.n) >>
  \o Own(r, p, "z", 2) \o << One((IF IsMap(r.ct) THEN "m:" ELSE "s:") \o c \o Root(p), <<0>>) >>

----------------------------------------------------------------------------
(* what a sink that takes anything is told: depth before a container, or   *)
(* at an atom                                                              *)
F == R("F", <<>>, <<>>)
RecElem(r, p) ==
  LET k == Kind(r) IN
  CASE k \in {"u", "o", "t"} -> << At(r, p, R("u", <<0, 1>>, <<1, 0>>), "", <<>>), F >>
    [] k = "s" -> << At(r, p, R("str", <<0, 1>>, <<1, 0>>), "", <<>>), F >>
    [] k = "l" -> << R("S", <<1>>, <<0>>), At(r, p, R("u", <<0, 2>>, <<1, 0>>), "I", <<0>>), F, F >>
    [] k = "p" -> << R("M", <<1>>, <<0>>), R("str=x", <<2>>, <<0>>), F, At(r, p, R("u", <<0, 2>>, <<1, 0>>), "Kx", <<>>), F, F >>
\* JSON has string keys
RecKey(r) == IF ~IsMap(r.ct) THEN <<>>
             ELSE << R(IF KeyKind(r) = "u" /\ r.mode # "parserec" THEN "u" ELSE "str", <<Key0, 1>>, <<1, 0>>), F >>
OwnRec(r, p, name, value) == IF r.ct \notin {"open", "known"} THEN <<>>
                             ELSE << One("str=" \o name, <<1>>), One("F", <<>>), One("u" \o (IF p THEN "/K" \o name ELSE ""), <<value, 1>>), One("F", <<>>) >>
RecRuns(r, p) ==
  << One(IF IsMap(r.ct) THEN "M" ELSE "S", <<0>>) >> \o OwnRec(r, p, "a", 1)
  \o << Group(RecKey(r) \o RecElem(r, p), r.n) >>
  \o OwnRec(r, p, "z", 2) \o << One("F", <<>>) >>

----------------------------------------------------------------------------
(* the value                                                               *)
ValTag(k) == CASE k \in {"u", "o", "t"} -> "u" [] k = "s" -> "str" [] OTHER -> k
ValRuns(r) ==
  LET v == ValTag(Kind(r)) IN
  IF r.ct = "known" THEN << One("a", <<1>>), One("z", <<2>>), One("n", <<0>>) >>
  ELSE LET g == IF IsMap(r.ct) THEN R(ValTag(KeyKind(r)) \o ":" \o v, <<Key0, 0>>, <<1, 1>>) ELSE R(v, <<0>>, <<1>>)
           m == << Group(<<g>>, r.n) >>
       IN IF r.ct = "open" THEN << One("a", <<1>>) >> \o m \o << One("z", <<2>>) >> ELSE m

----------------------------------------------------------------------------
(* texts, as numbers and what is between them                              *)
Q == "\""
\* notation: JSON, debug, pretty debug
Before(k, json) == CASE k \in {"u", "o", "t"} -> "" [] k = "s" -> Q [] k = "l" -> "["
                     [] k = "p" -> IF json THEN "{" \o Q \o "x" \o Q \o ":" ELSE "Point {" \o Q \o "x" \o Q \o ": "
Behind(k) == CASE k \in {"u", "o", "t"} -> "" [] k = "s" -> Q [] k = "l" -> "]" [] k = "p" -> "}"
KeyQ(r) == IF IsMap(r.ct) /\ (r.mode = "write" \/ KeyKind(r) = "s") THEN Q ELSE ""
TextRuns(r) ==
  LET json == r.mode = "write"
      pretty == r.mode = "pretty"
      k == Kind(r)
      map == IsMap(r.ct)
      name == IF json \/ r.ct \in {"vec", "slice"} THEN "" ELSE NameOf(r.ct) \o " "
      comma == IF json THEN "," ELSE IF pretty THEN ",\n    " ELSE ", "
      colon == IF json THEN ":" ELSE ": "
      open == name \o (IF map THEN "{" ELSE "[") \o (IF pretty THEN "\n    " ELSE "")
      close == (IF pretty THEN ",\n" ELSE "") \o (IF map THEN "}" ELSE "]")
      front == IF map THEN KeyQ(r) ELSE Before(k, json)
      num == R("#", <<0>>, <<1>>)
      key == R("#", <<Key0>>, <<1>>)
      T(s) == R(s, <<>>, <<>>)
      elem(last) == IF map THEN << key, T(KeyQ(r) \o colon \o Before(k, json)), num >> \o last ELSE << num >> \o last
      own == r.ct = "open"
      Field(n) == Q \o n \o Q \o colon
      head == IF own THEN << One(open \o Field("a"), <<>>), One("#", <<1>>), One(comma \o front, <<>>) >> ELSE << One(open \o front, <<>>) >>
      final == Behind(k) \o (IF own THEN comma \o Field("z") ELSE close)
      g == Group(elem(<< T(Behind(k) \o comma \o front) >>), r.n - 1)
      h == Group(elem(<< T(final) >>), 1)
      \* the last group starts where the others ended
  IN head \o << g >> \o << <<h[1], [i \in 1..Len(h[2]) |-> h[2][i] + (r.n - 1) * h[3][i]], h[3], 1>> >>
     \o (IF own THEN << One("#", <<2>>), One(close, <<>>) >> ELSE <<>>)

----------------------------------------------------------------------------
(* long strings and bytes, numbers of many digits                          *)
Chars(tag, segs) == [i \in 1..Len(segs) |-> << <<tag>>, <<segs[i][1]>>, <<0>>, segs[i][2]>>]
RECURSIVE Length(_)
Length(segs) == IF segs = <<>> THEN 0 ELSE segs[1][2] + Length(Tail(segs))
StringRuns(r) == IF r.mode \in {"write", "debug"} THEN << One("c", <<34>>) >> \o Chars("c", r.segs) \o << One("c", <<34>>) >> ELSE Chars("c", r.segs)
BytesRuns(r) == IF r.mode = "debug" THEN << One("b", <<98>>), One("b", <<34>>) >> \o Chars("b", r.segs) \o << One("b", <<34>>) >> ELSE Chars("b", r.segs)

\* <<text, result>>: a whole number, or an error
Digits(n) == ToString(n)
NumberForm(f, m) ==
  CASE f = "shifted" -> << << <<"1", 1>>, <<"0", m>>, <<"e-", 1>>, <<Digits(m), 1>> >>, 1>>
    [] f = "small" -> << << <<"0.", 1>>, <<"0", m>>, <<"1E", 1>>, <<Digits(m + 1), 1>> >>, 1>>
    [] f = "negative" -> << << <<"-0.", 1>>, <<"0", m>>, <<"25e+", 1>>, <<Digits(m + 2), 1>> >>, 0 - 25>>
    [] f = "zero" -> << << <<"0.", 1>>, <<"0", m>> >>, 0>>
    [] f = "fraction" -> << << <<"5.", 1>>, <<"0", m>> >>, 5>>
    [] f = "exponent" -> << << <<"3e", 1>>, <<"0", m>>, <<"2", 1>> >>, 300>>
    [] f = "noexponent" -> << << <<"7e-", 1>>, <<"0", m>> >>, 7>>
    [] f = "nothing" -> << << <<"0.", 1>>, <<"0", m>>, <<"1", 1>> >>, 0>>
    [] f = "huge" -> << << <<"1", 1>>, <<"0", m>> >>, "OutOfRange">>
    [] f = "hugeexponent" -> << << <<"0.0e", 1>>, <<"9", m>> >>, 0>>
    [] f = "tinyexponent" -> << << <<"12e-", 1>>, <<"9", m>> >>, 0>>

----------------------------------------------------------------------------
Typed == {"de", "depathtyped", "replay", "parse", "text"}
IsText(r) == r.mode \in {"write", "debug", "pretty"}
Runs(r) == Some(
  CASE r.ct = "text" -> StringRuns(r)
    [] r.ct = "bytes" -> BytesRuns(r)
    [] r.ct = "number" -> << One("f", <<NumberForm(r.form, r.n)[2]>>) >>
    [] r.mode \in {"ser", "serpath"} -> SerRuns(r, r.mode = "serpath")
    [] r.mode \in {"derec", "parserec", "depath"} -> RecRuns(r, r.mode = "depath")
    [] r.mode \in Typed -> ValRuns(r)
    [] IsText(r) -> TextRuns(r))
\* how it ends
Ends(r) ==
  CASE r.ct = "number" -> IF r.form = "huge" THEN "OutOfRange" ELSE "ok"
    [] r.ct = "text" -> "ok"
    [] r.ct = "bytes" -> IF r.mode = "dearr" /\ Length(r.segs) # 65537 THEN "WrongLength" ELSE "ok"
    [] r.stop >= 0 -> "left"
    [] r.bad \in 0..(r.n - 1) /\ r.mode \in Typed /\ r.ct # "known" /\ ~(r.ct = "arr" /\ r.bad >= r.len) -> "Unexpected"
    [] r.ct = "arr" /\ r.mode \in Typed \ {"replay", "text"} /\ r.n # r.len -> "WrongLength"
    [] OTHER -> "ok"
=============================================================================
