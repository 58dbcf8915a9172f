----------------------------- MODULE ScGrammar ------------------------------
(***************************************************************************)
(* Terms for the constructor grammar: every way of writing a polynomial or *)
(* matrix down, correct and malformed, and the pairs and quadruples of     *)
(* them.  A leaf text other than "0" stands for any nonzero number.        *)
(* On the terms themselves TLC checks that all spellings of a model denote *)
(* that model.                                                             *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils, TLC, SequencesExt, Integers, Sequences, FiniteSets

CONSTANTS Big

List(pat) == ListOf([i \in DOMAIN pat |-> Number(pat[i])])
Arr1(pat) == ArrayOf(1, [i \in DOMAIN pat |-> Number(pat[i])])
ArrRow(pat) == ArrayOf(2, <<List(pat)>>)
ArrCol(pat) == ArrayOf(2, [i \in DOMAIN pat |-> List(<<pat[i]>>)])
Pats == { <<"1">>, <<"0">>, <<"0", "0">>, <<"1", "1">>, <<"0", "1">>, <<"1", "0", "1">>, <<"0", "0", "1", "1">> }
        \cup IF Big THEN { <<"1", "1", "1", "1">>, <<"0", "1", "0", "0">>, <<"1", "0", "0">>, <<"0", "0", "0", "0", "0", "1">> } ELSE {}
SisoKinds == {"num", "list", "arr0", "arr1", "row", "col", "lol", "loa", "lor", "lon"}
Spell(kind, q) ==
  CASE kind = "num" -> Number(q[1])
    [] kind = "list" -> List(q)
    [] kind = "arr0" -> ArrayOf(0, <<Number(q[1])>>)
    [] kind = "arr1" -> Arr1(q)
    [] kind = "row" -> ArrRow(q)
    [] kind = "col" -> ArrCol(q)
    [] kind = "lol" -> ListOf(<<ListOf(<<List(q)>>)>>)
    [] kind = "loa" -> ListOf(<<ListOf(<<Arr1(q)>>)>>)
    [] kind = "lor" -> ListOf(<<ListOf(<<ArrRow(q)>>)>>)
    [] kind = "lon" -> ListOf(<<ListOf(<<Number(q[1])>>)>>)
Fits(kind, q) == kind \in {"num", "arr0", "lon"} => Len(q) = 1
Siso == { Spell(x[1], x[2]) : x \in { y \in SisoKinds \X Pats : Fits(y[1], y[2]) } }
SisoFew == { Spell(x[1], x[2]) : x \in { y \in {"num", "list", "arr1", "row", "lol"} \X
                                         { <<"1">>, <<"0", "1">>, <<"1", "0", "1">>, <<"0", "0", "1", "1">>, <<"0">> } : Fits(y[1], y[2]) } }

Shapes == {<<1, 2>>, <<2, 1>>, <<2, 2>>} \cup IF Big THEN {<<2, 3>>, <<3, 1>>} ELSE {}
Fams == {"const", "first", "lead", "zeros", "vary", "high"}
Pat(f, i, j) ==
  CASE f = "const" -> <<"1">>
    [] f = "first" -> <<"1", "1">>
    [] f = "lead" -> <<"0", "1", "1">>
    [] f = "zeros" -> IF (i + j) % 2 = 0 THEN <<"0">> ELSE <<"0", "1">>
    [] f = "vary" -> IF j = 2 THEN <<"1">> ELSE IF i = 2 THEN <<"1", "0", "1">> ELSE <<"0", "1", "1">>
    [] f = "high" -> IF i = 1 /\ j = 1 THEN <<"1", "1", "1", "1">> ELSE <<"1", "1">>
EntryKinds == {"num", "list", "arr1", "row", "mixed"}
Cell(e, q, i, j) ==
  CASE e = "num" -> IF Len(q) = 1 THEN Number(q[1]) ELSE List(q)
    [] e = "list" -> List(q)
    [] e = "arr1" -> Arr1(q)
    [] e = "row" -> ArrRow(q)
    [] e = "mixed" -> IF (i + j) % 3 = 0 THEN Arr1(q) ELSE IF Len(q) = 1 THEN Number(q[1]) ELSE IF i = j THEN ArrRow(q) ELSE List(q)
Table(sh, f, e) == ListOf([i \in 1..sh[1] |-> ListOf([j \in 1..sh[2] |-> Cell(e, Pat(f, i, j), i, j)])])
Gains == { ArrayOf(2, [i \in 1..sh[1] |-> List([j \in 1..sh[2] |-> IF i = j THEN "0" ELSE "1"])]) : sh \in {<<2, 2>>, <<2, 3>>, <<3, 2>>} }
Mats == { Table(x[1], x[2], x[3]) : x \in Shapes \X Fams \X EntryKinds } \cup Gains
MatsOf(sh, es) == { Table(sh, x[1], x[2]) : x \in Fams \X es }

Cx == Leaf("cx", "1;1")
Cx0 == Leaf("cx", "1")
Npi == Leaf("npi", "1")
Str == Leaf("str", "")
Obj == Leaf("obj", "")
N(v) == Number(v)
Tup(xs) == [ListOf(xs) EXCEPT !.k = "tup"]
Flaws == { Str, Obj, Cx, Cx0, Npi, Tup(<<N("1"), N("1")>>), ListOf(<<>>), ListOf(<<ListOf(<<>>)>>),
           ListOf(<<N("1"), Str>>), ListOf(<<N("1"), Cx>>), ListOf(<<Cx, N("1")>>), ListOf(<<Npi, N("1")>>), ListOf(<<N("1"), None>>),
           ListOf(<<N("1"), ListOf(<<N("1")>>)>>), ListOf(<<ListOf(<<N("1")>>), N("1")>>), ListOf(<<Arr1(<<"1", "1">>), Arr1(<<"1", "1">>)>>),
           ArrayOf(1, <<N("1"), Cx>>), ArrayOf(1, <<Cx0, N("1")>>), ArrayOf(0, <<Cx>>), ArrayOf(0, <<Npi>>),
           ArrayOf(2, <<ListOf(<<N("1"), Cx>>), ListOf(<<N("1"), N("1")>>)>>),
           ArrayOf(3, <<ListOf(<<List(<<"1", "1">>), List(<<"1", "1">>)>>), ListOf(<<List(<<"1", "1">>), List(<<"1", "1">>)>>)>>),
           ListOf(<<ListOf(<<N("1"), N("1")>>), ListOf(<<N("1")>>)>>), ListOf(<<ListOf(<<N("1")>>), ListOf(<<N("1"), N("1")>>)>>),
           ListOf(<<ListOf(<<N("1"), Str>>)>>), ListOf(<<ListOf(<<N("1"), None>>)>>), ListOf(<<ListOf(<<N("1"), Cx>>)>>),
           ListOf(<<ListOf(<<N("1"), ListOf(<<N("1"), Cx>>)>>)>>), ListOf(<<ListOf(<<N("1"), ArrayOf(1, <<N("1"), Cx>>)>>)>>),
           ListOf(<<ListOf(<<ArrayOf(1, <<Cx, N("1")>>)>>)>>), ListOf(<<ListOf(<<ListOf(<<Cx, N("1")>>)>>)>>), ListOf(<<ListOf(<<Cx>>)>>),
           ListOf(<<ListOf(<<Str>>)>>), ListOf(<<ListOf(<<None>>)>>), ListOf(<<ListOf(<<Obj, N("1")>>)>>),
           ListOf(<<ListOf(<<ArrayOf(2, <<List(<<"1", "1">>), List(<<"1", "1">>)>>), N("1")>>)>>),
           ListOf(<<ListOf(<<ListOf(<<List(<<"1", "1">>), List(<<"1", "1">>)>>), N("1")>>)>>),
           ListOf(<<ListOf(<<Npi, N("1")>>)>>) }
Partners == { None, N("1"), List(<<"1", "0", "1">>), Arr1(<<"1", "1", "1">>), Table(<<1, 2>>, "first", "list"), Table(<<1, 2>>, "const", "num"), Table(<<2, 2>>, "lead", "list") }

TCalls(x) == { [cls |-> "T", args |-> a] : a \in
  (Siso \X (Siso \cup {None})) \cup ({None} \X Siso)
  \cup (Mats \X (SisoFew \cup {None})) \cup ((SisoFew \cup {None}) \X Mats)
  \cup UNION { MatsOf(sh, EntryKinds) \X MatsOf(sh, {"list", "mixed"}) : sh \in Shapes }
  \cup UNION { MatsOf(sh, {"num"}) \X MatsOf(s2, {"num"}) : sh \in Shapes, s2 \in Shapes }
  \cup (Gains \X Gains) \cup (Gains \X MatsOf(<<2, 2>>, {"list"})) \cup (MatsOf(<<2, 2>>, {"mixed"}) \X Gains)
  \cup (Flaws \X Partners) \cup (Partners \X Flaws) \cup {<<None, None>>} }

----------------------------------------------------------------------------
(* State: r x c blocks with an occasional zero *)
Row(c, i) == [j \in 1..c |-> IF (i + j) % 4 = 0 THEN "0" ELSE "1"]
Nest(r, c) == ListOf([i \in 1..r |-> List(Row(c, i))])
Arr2(r, c) == ArrayOf(2, [i \in 1..r |-> List(Row(c, i))])
Ways(r, c) == {Nest(r, c), Arr2(r, c)}
              \cup (IF r = 1 THEN {List(Row(c, 1)), Arr1(Row(c, 1))} ELSE {})
              \cup (IF r = 1 /\ c = 1 THEN {N("1"), ArrayOf(0, <<N("1")>>), Npi} ELSE {})
FlatCol(r) == {List(Row(r, 1)), Arr1(Row(r, 1)), Nest(1, r)}
WaysB(n, m) == Ways(n, m) \cup IF m = 1 THEN FlatCol(n) ELSE {}
WaysD(p, m) == Ways(p, m) \cup {None} \cup IF m = 1 THEN FlatCol(p) ELSE {}
Ns == 1..3
SFlaws == { Str, Obj, Cx, Cx0, Tup(<<N("1")>>), ListOf(<<>>), ListOf(<<N("1"), Str>>), ListOf(<<N("1"), Cx>>), ListOf(<<N("1"), ListOf(<<N("1")>>)>>),
            ListOf(<<ListOf(<<N("1"), N("1")>>), ListOf(<<N("1")>>)>>), ListOf(<<ListOf(<<Cx>>)>>), ArrayOf(2, <<ListOf(<<Cx>>)>>), ArrayOf(2, <<ListOf(<<Cx0>>)>>),
            ArrayOf(1, <<Cx>>), ArrayOf(3, <<ListOf(<<List(<<"1">>)>>)>>), ListOf(<<ListOf(<<List(<<"1">>)>>)>>),
            ArrayOf(3, <<ListOf(<<List(<<"1", "1">>), List(<<"1", "1">>)>>), ListOf(<<List(<<"1", "1">>), List(<<"1", "1">>)>>)>>) }
SCalls(x) == { [cls |-> "S", args |-> a] : a \in
  UNION { (Ways(n, n) \X {Nest(n, m)} \X {Arr2(p, n)} \X {None, Nest(p, m)})
          \cup ({Arr2(n, n)} \X WaysB(n, m) \X Ways(p, n) \X WaysD(p, m)) : n \in Ns, p \in 1..3, m \in 1..2 }
  \cup { <<Nest(d[1], d[2]), Arr2(d[3], d[4]), Nest(d[5], d[6]), t>> :
         d \in [1..6 -> 1..2], t \in {None, N("1"), Nest(1, 2), Nest(2, 1), Nest(2, 2)} }
  \cup UNION { {<<w, None, None, None>>, <<None, None, None, w>>} : w \in Ways(1, 1) \cup Ways(1, 3) \cup Ways(2, 1) \cup Ways(2, 3) \cup Ways(2, 2) }
  \cup { <<IF 1 \in s THEN N("1") ELSE None, IF 2 \in s THEN N("1") ELSE None, IF 3 \in s THEN N("1") ELSE None, IF 4 \in s THEN N("1") ELSE None>> : s \in SUBSET (1..4) }
  \cup UNION { {<<f, None, None, None>>, <<None, None, None, f>>, <<f, N("1"), N("1"), N("1")>>, <<N("1"), f, N("1"), N("1")>>,
                <<N("1"), N("1"), f, N("1")>>, <<N("1"), N("1"), N("1"), f>>} : f \in SFlaws } }

----------------------------------------------------------------------------
(* every spelling denotes the model it spells, and leading zeros mean nothing *)
VARIABLES pn, pd, kn, kd
Init == pn \in Pats /\ pd \in Pats /\ kn \in SisoKinds /\ kd \in SisoKinds
Next == FALSE /\ UNCHANGED <<pn, pd, kn, kd>>
Spec == Init /\ [][Next]_<<pn, pd, kn, kd>>
Texts(q) == SEval([i \in DOMAIN q |-> NParse(q[i])])
Meant(q) == PTrim(Texts(q))
SameMeaning ==
  (Fits(kn, pn) /\ Fits(kd, pd)) =>
    LET R == Fraction(Spell(kn, pn), Spell(kd, pd)) IN
    IF Meant(pd) = <<>> \/ Len(Meant(pn)) > Len(Meant(pd)) THEN R.s = "bad"
    ELSE R.s = "model" /\ ~R.soft /\ R.v.num = <<<<Meant(pn)>>>> /\ R.v.den = <<<<Meant(pd)>>>>
LeadingZeros ==
  (Fits(kn, pn) /\ Fits(kd, pd) /\ kn \notin {"num", "arr0", "lon"}) =>
    Fraction(Spell(kn, <<"0">> \o pn), Spell(kd, pd)) = Fraction(Spell(kn, pn), Spell(kd, pd))
(* a common denominator is the table that repeats it *)
Broadcast ==
  Fits(kd, pd) =>
    \A sh \in Shapes, f \in Fams :
      Fraction(Table(sh, f, "list"), Spell(kd, pd))
      = Fraction(Table(sh, f, "mixed"), ListOf([i \in 1..sh[1] |-> ListOf([j \in 1..sh[2] |-> List(pd)])]))

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(TCalls(0) \cup SCalls(0)))
=============================================================================
