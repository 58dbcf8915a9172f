------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* What the arguments of the two model constructors denote.                *)
(*                                                                         *)
(* A term is the tree of Python values that was written down:              *)
(*   [k |-> "none"]            an argument left out                        *)
(*   [k |-> "num",  v]         a real number (v: its text)                 *)
(*   [k |-> "npi",  v]         a numpy integer                             *)
(*   [k |-> "cx",   v]         a complex number                            *)
(*   [k |-> "str"], "obj"      something that is not a number              *)
(*   [k |-> "list", xs], "tup" a list or tuple of terms                    *)
(*   [k |-> "arr",  nd, xs]    an array with nd axes: nd = 0 holds one     *)
(*                             leaf, nd = 1 leaves, nd >= 2 "list" rows    *)
(* All terms carry the fields k, v, nd, xs.                                *)
(***************************************************************************)
EXTENDS Mat, Poly
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Leaf(k, v) == [k |-> k, v |-> v, nd |-> 0, xs |-> <<>>]
None == Leaf("none", "")
Number(v) == Leaf("num", v)
ListOf(xs) == [k |-> "list", v |-> "", nd |-> 0, xs |-> xs]
ArrayOf(nd, xs) == [k |-> "arr", v |-> "", nd |-> nd, xs |-> xs]
IsLeaf(t) == t.k \in {"num", "npi", "cx"}
Every(s, P(_)) == \A i \in DOMAIN s : P(s[i])

(* readings: s = bad (must be refused), free (not settled by the documentation), or a value.
   soft: refusing it is fine too, reading it differently is not *)
Bad == [s |-> "bad", soft |-> FALSE, v |-> <<>>]
Free == [s |-> "free", soft |-> FALSE, v |-> <<>>]
Val(s, v, soft) == [s |-> s, soft |-> soft, v |-> v]

(* numbers: complex ones with no imaginary part are real numbers written oddly *)
RealLeaf(t) == t.k \in {"num", "npi"} \/ (t.k = "cx" /\ NIsReal(NParse(t.v)))
OddLeaf(t) == t.k # "num"
Value(t) == NParse(t.v)

(* the flat list of leaves of an array, and its axes *)
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>>
            ELSE (IF Head(xs).k = "list" THEN Flat(Head(xs).xs) ELSE <<Head(xs)>>) \o Flat(Tail(xs))
RECURSIVE Axes(_, _)
Axes(xs, nd) == IF nd = 0 THEN <<>> ELSE IF nd = 1 THEN <<Len(xs)>> ELSE <<Len(xs)>> \o Axes(Head(xs).xs, nd - 1)
Thin(t) == LET ax == Axes(t.xs, t.nd) IN \E i \in 0..Len(ax) : \A j \in 1..Len(ax) : j # i => ax[j] = 1
Leaves(s) == SEval([i \in DOMAIN s |-> Value(s[i])])

(* a polynomial out of leaves *)
PolyOf(s, odd) ==
  IF s = <<>> THEN Free
  ELSE IF ~Every(s, IsLeaf) THEN Bad
  ELSE IF ~Every(s, RealLeaf) THEN Bad
  ELSE Val("poly", PTrim(Leaves(s)), odd \/ \E i \in DOMAIN s : OddLeaf(s[i]))

----------------------------------------------------------------------------
(* one entry of a transfer matrix *)
Entry(t) ==
  CASE IsLeaf(t) -> PolyOf(<<t>>, FALSE)
    [] t.k = "list" -> IF \E i \in DOMAIN t.xs : t.xs[i].k \in {"arr", "tup", "list"} THEN (IF Len(t.xs) > 1 THEN Bad ELSE Free)
                       ELSE PolyOf(t.xs, FALSE)
    [] t.k = "arr" -> IF Thin(t) THEN PolyOf(Flat(t.xs), FALSE) ELSE Bad
    [] t.k = "tup" -> Free
    [] OTHER -> Bad

(* a numerator or denominator argument: left out, one polynomial, or a matrix of them *)
Side(t) ==
  CASE t.k = "none" -> Val("none", <<>>, FALSE)
    [] t.k = "num" -> PolyOf(<<t>>, FALSE)
    [] t.k = "npi" -> PolyOf(<<t>>, TRUE)
    [] t.k = "cx" -> IF RealLeaf(t) THEN Free ELSE Bad
    [] t.k = "tup" -> Free
    [] t.k = "arr" ->
         LET ax == Axes(t.xs, t.nd)
         IN IF Thin(t) THEN PolyOf(Flat(t.xs), FALSE)
            ELSE IF t.nd # 2 THEN Bad
            ELSE LET es == SEval([i \in 1..ax[1] |-> SEval([j \in 1..ax[2] |-> PolyOf(<<t.xs[i].xs[j]>>, FALSE)])])
                     cells == { es[i][j] : i \in 1..ax[1], j \in 1..ax[2] }
                 IN IF \E c \in cells : c.s = "bad" THEN Bad
                    ELSE Val("mat", SEval([i \in 1..ax[1] |-> SEval([j \in 1..ax[2] |-> es[i][j].v])]), \E c \in cells : c.soft)
    [] t.k = "list" /\ t.xs = <<>> -> Bad
    [] t.k = "list" /\ Every(t.xs, LAMBDA x : x.k = "list") ->
         LET p == Len(t.xs)
             m == Len(t.xs[1].xs)
         IN IF ~Every(t.xs, LAMBDA x : Len(x.xs) = m) THEN Bad
            ELSE IF m = 0 THEN Bad
            ELSE LET es == SEval([i \in 1..p |-> SEval([j \in 1..m |-> Entry(t.xs[i].xs[j])])])
                     cells == { es[i][j] : i \in 1..p, j \in 1..m }
                     soft == \E c \in cells : c.soft
                 IN IF \E c \in cells : c.s = "bad" THEN Bad
                    ELSE IF \E c \in cells : c.s = "free" THEN Free
                    ELSE IF p = 1 /\ m = 1 THEN Val("poly", es[1][1].v, soft)
                    ELSE Val("mat", SEval([i \in 1..p |-> SEval([j \in 1..m |-> es[i][j].v])]), soft)
    [] t.k = "list" -> IF \E i \in DOMAIN t.xs : t.xs[i].k = "tup" THEN Free ELSE PolyOf(t.xs, FALSE)
    [] OTHER -> Bad

One == << N1 >>
PRows(M) == Len(M)
PCols(M) == Len(M[1])
Spread(q, M) == SEval([i \in 1..PRows(M) |-> SEval([j \in 1..PCols(M) |-> q])])
ProperM(N, D) == \A i \in 1..PRows(N), j \in 1..PCols(N) : D[i][j] # <<>> /\ Len(N[i][j]) <= Len(D[i][j])

(* the model Transfer(num, den) stands for *)
Fraction(num, den) ==
  LET n == Side(num)
      d == Side(den)
      made(N, D) == IF ProperM(N, D) THEN Val("model", [num |-> N, den |-> D], n.soft \/ d.soft) ELSE Bad
  IN IF n.s = "bad" \/ d.s = "bad" THEN Bad
     ELSE IF n.s = "free" \/ d.s = "free" THEN Free
     ELSE IF n.s = "none" /\ d.s = "none" THEN Bad
     ELSE IF n.s # "mat" /\ d.s # "mat"
          THEN made(<<<<IF n.s = "none" THEN One ELSE n.v>>>>, <<<<IF d.s = "none" THEN One ELSE d.v>>>>)
     ELSE IF d.s # "mat" THEN made(n.v, Spread(IF d.s = "none" THEN One ELSE d.v, n.v))
     ELSE IF n.s # "mat" THEN made(Spread(IF n.s = "none" THEN One ELSE n.v, d.v), d.v)
     ELSE IF PRows(n.v) # PRows(d.v) \/ PCols(n.v) # PCols(d.v) THEN Bad
     ELSE made(n.v, d.v)

----------------------------------------------------------------------------
(* a matrix argument of State: left out or a matrix; flat data is one row *)
RowOf(s) == [i \in DOMAIN s |-> Value(s[i])]
Grid(rows, odd) ==
  IF \E i \in DOMAIN rows : rows[i] = <<>> THEN Free
  ELSE IF ~Every(rows, LAMBDA r : Len(r) = Len(rows[1])) THEN Bad
  ELSE IF ~Every(rows, LAMBDA r : Every(r, IsLeaf)) THEN Bad
  ELSE IF ~Every(rows, LAMBDA r : Every(r, RealLeaf)) THEN Bad
  ELSE Val("mat", MEval([r |-> Len(rows), c |-> Len(rows[1]), e |-> [i \in DOMAIN rows |-> RowOf(rows[i])]]),
           odd \/ \E i \in DOMAIN rows : \E j \in DOMAIN rows[i] : rows[i][j].k = "cx")
Block(t) ==
  CASE t.k = "none" -> Val("none", <<>>, FALSE)
    [] t.k \in {"num", "npi"} -> Grid(<<<<t>>>>, FALSE)
    [] t.k = "cx" -> IF RealLeaf(t) THEN Free ELSE Bad
    [] t.k = "tup" -> Free
    [] t.k = "arr" -> IF t.nd > 2 THEN Bad
                      ELSE IF t.nd = 2 THEN Grid([i \in DOMAIN t.xs |-> t.xs[i].xs], FALSE)
                      ELSE Grid(<<t.xs>>, FALSE)
    [] t.k = "list" /\ t.xs = <<>> -> Free
    [] t.k = "list" /\ Every(t.xs, LAMBDA x : x.k = "list") ->
         IF \E i \in DOMAIN t.xs : \E j \in DOMAIN t.xs[i].xs : ~IsLeaf(t.xs[i].xs[j])
         THEN Bad
         ELSE Grid([i \in DOMAIN t.xs |-> t.xs[i].xs], FALSE)
    [] t.k = "list" -> IF \E i \in DOMAIN t.xs : t.xs[i].k \in {"tup", "arr"} THEN Free ELSE Grid(<<t.xs>>, FALSE)
    [] OTHER -> Bad

Quad(ta, tb, tc, td) ==
  LET A == Block(ta)
      B == Block(tb)
      C == Block(tc)
      D == Block(td)
      all == <<A, B, C, D>>
      soft == \E i \in 1..4 : all[i].soft
      gain(G) == Val("model", [a |-> MZero(0, 0), b |-> MZero(0, G.c), c |-> MZero(G.r, 0), d |-> G], soft)
      none(X) == X.s = "none"
      n == A.v.r
      Bc == IF B.v.r # n /\ B.v.r = 1 /\ B.v.c = n THEN MTrans(B.v) ELSE B.v    \* a flat B is a column
      p == C.v.r
      m == Bc.c
      Dc == IF D.v.r # p /\ D.v.r = 1 /\ m = 1 /\ D.v.c = p THEN MTrans(D.v) ELSE D.v
  IN IF \E i \in 1..4 : all[i].s = "bad" THEN Bad
     ELSE IF \E i \in 1..4 : all[i].s = "free" THEN Free
     ELSE IF none(B) /\ none(C) /\ none(D) THEN (IF none(A) THEN Free ELSE gain(A.v))
     ELSE IF none(A) /\ none(B) /\ none(C) THEN gain(D.v)
     ELSE IF none(A) \/ none(B) \/ none(C) THEN Bad
     ELSE IF A.v.r # A.v.c \/ Bc.r # n \/ C.v.c # n THEN Bad
     ELSE IF none(D) THEN Val("model", [a |-> A.v, b |-> Bc, c |-> C.v, d |-> MZero(p, m)], soft)
     ELSE IF Dc.r # p \/ Dc.c # m THEN Bad
     ELSE Val("model", [a |-> A.v, b |-> Bc, c |-> C.v, d |-> Dc], soft)
=============================================================================
