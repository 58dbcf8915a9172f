-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What a figure shows.  Models are drawn over each other on a grid of     *)
(* panels, one panel per channel (two, magnitude over phase, in a Bode     *)
(* plot); a panel holds the curves of the models that have this channel,   *)
(* in the order in which the models were given.                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* xs: sequence of records with fields p, m, dt *)
MaxOver(xs, f(_)) == LET S == { f(xs[q]) : q \in DOMAIN xs } IN CHOOSE a \in S : \A b \in S : b <= a
TallOf(x) == x.p
WideOf(x) == x.m
PanelRows(fn, xs) == (IF fn = "bode" THEN 2 ELSE 1) * MaxOver(xs, TallOf)
PanelCols(fn, xs) == MaxOver(xs, WideOf)
(* output shown in panel row r, and the part of the response shown there *)
OutputOf(fn, r) == IF fn = "bode" THEN (r + 1) \div 2 ELSE r
PartOf(fn, r) == IF fn # "bode" THEN "all" ELSE IF r % 2 = 1 THEN "mag" ELSE "phase"
(* models having channel (i, j), in order *)
ShownIn(xs, i, j) ==
  LET RECURSIVE go(_)
      go(q) == IF q = 0 THEN <<>> ELSE go(q - 1) \o (IF xs[q].p >= i /\ xs[q].m >= j THEN <<q>> ELSE <<>>)
  IN go(Len(xs))
(* the curves of one model in one panel *)
CurvesOf(fn, r, x, q, neg) ==
  IF fn = "bode"
  THEN << [sys |-> q, what |-> PartOf(fn, r)] >> \o (IF x.dt = "null" THEN <<>> ELSE << [sys |-> q, what |-> "nyquist"] >>)
  ELSE IF fn = "nyquist"
  THEN << [sys |-> q, what |-> "locus"] >> \o (IF neg THEN << [sys |-> q, what |-> "mirror"] >> ELSE <<>>)
  ELSE << [sys |-> q, what |-> "time"] >>
PanelCurves(fn, xs, r, j, neg) ==
  LET s == ShownIn(xs, OutputOf(fn, r), j)
      RECURSIVE go(_)
      go(a) == IF a = 0 THEN <<>> ELSE go(a - 1) \o CurvesOf(fn, r, xs[s[a]], s[a], neg)
  IN go(Len(s))
=============================================================================
