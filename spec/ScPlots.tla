------------------------------- MODULE ScPlots -------------------------------
(***************************************************************************)
(* Call space of the plot functions and of random_state_model /            *)
(* concatenate_state_matrices; and the layout rules of figures, explored   *)
(* by TLC over all short lists of models.                                  *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Big

Sizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>} \cup (IF Big THEN {<<2, 3>>} ELSE {})
Dts == {"null", "dt1", "dt4"} \cup (IF Big THEN {"dt2", "dt3"} ELSE {})
Mods(u) == { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d] : k \in {"S", "T"}, s \in Sizes, g \in BOOLEAN, d \in Dts }
One(k, p, m, g, d) == [k |-> k, p |-> p, m |-> m, gain |-> g, dt |-> d]
Opts(fn) == IF fn = "bode" THEN { [db |-> a, hz |-> b, deg |-> c, neg |-> TRUE] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN }
            ELSE IF fn = "nyquist" THEN { [db |-> FALSE, hz |-> b, deg |-> TRUE, neg |-> c] : b \in BOOLEAN, c \in BOOLEAN }
            ELSE { [db |-> FALSE, hz |-> TRUE, deg |-> TRUE, neg |-> TRUE] }
Usual(fn) == { o \in Opts(fn) : ~o.db /\ o.hz /\ o.deg /\ o.neg }
PlotFns == {"step", "impulse", "bode", "nyquist"}
Grids == {"auto", "given", "list"}
Single(fn) ==
  { [fn |-> fn, xs |-> <<x>>, grid |-> g, o |-> o, form |-> "model", poles |-> f] :
      x \in Mods(0), g \in {"auto", "given"}, o \in Usual(fn), f \in {"any"} }
  \cup { [fn |-> fn, xs |-> <<x>>, grid |-> g, o |-> o, form |-> f, poles |-> p] :
      x \in { y \in Mods(0) : ~y.gain /\ y.p * y.m \in {1, 2, 4} /\ (Big \/ (y.p = y.m /\ y.dt # "dt4")) }, g \in {"auto", "list"}, o \in Opts(fn), f \in {"list"},
      p \in {"stable", "edge"} }
Pool == { One("S", 1, 1, FALSE, "null"), One("T", 1, 1, FALSE, "dt1"), One("T", 2, 2, FALSE, "null"), One("S", 1, 2, FALSE, "dt4"),
          One("T", 2, 1, FALSE, "null"), One("S", 1, 1, TRUE, "null"), One("T", 2, 2, TRUE, "dt1"), One("S", 2, 2, FALSE, "dt1") }
Fits(xs) == \A a, b \in DOMAIN xs : xs[a].dt = xs[b].dt
Several(fn) ==
  { c \in { [fn |-> fn, xs |-> <<x, y>>, grid |-> g, o |-> o, form |-> IF g = "auto" THEN "list" ELSE "tuple", poles |-> "any"] :
              x \in Pool, y \in Pool, g \in {"auto", "given"}, o \in Usual(fn) } :
      fn \in {"bode", "nyquist"} \/ c.grid = "auto" \/ Fits(c.xs) }
  \cup { [fn |-> fn, xs |-> <<x, y>>, grid |-> "auto", o |-> o, form |-> "list", poles |-> "stable"] :
           x \in { a \in Pool : ~a.gain /\ (Big \/ a.p = a.m) }, y \in { a \in Pool : ~a.gain /\ (Big \/ a.dt # "dt4") }, o \in Opts(fn) \ Usual(fn) }
  \cup { [fn |-> fn, xs |-> <<x, y, z>>, grid |-> "auto", o |-> o, form |-> "list", poles |-> "any"] :
           x \in { a \in Pool : a.dt # "dt4" /\ (Big \/ a.p = 1) }, y \in { a \in Pool : a.k = "S" /\ (Big \/ ~a.gain) }, z \in { a \in Pool : a.p = 2 /\ (Big \/ ~a.gain) }, o \in Usual(fn) }
  \cup { [fn |-> fn, xs |-> [q \in 1..11 |-> x], grid |-> g, o |-> o, form |-> "list", poles |-> "any"] :
           x \in { a \in Pool : a.p = a.m /\ (Big \/ a.p = 1) }, g \in {"auto", "given"}, o \in Usual(fn) }
Styled(fn) ==
  { [fn |-> fn, xs |-> <<x, y, z>>, grid |-> "auto", o |-> o, form |-> "styled", poles |-> "stable"] :
      x \in { a \in Pool : a.p = a.m /\ ~a.gain }, y \in { a \in Pool : a.p = a.m /\ ~a.gain }, z \in { One("T", 1, 2, FALSE, "null") }, o \in Usual(fn) }
Plot(u) == UNION { Single(fn) \cup Several(fn) \cup Styled(fn) : fn \in PlotFns }

Shapes2 == {<<1, 1>>, <<1, 2>>, <<3, 1>>, <<2, 2>>}
Dists == {"default", "real", "complex", "even"}
FullDists == {"default", "real", "complex", "integrator", "circle", "mixed", "intcirc"}
Rand(u) ==
  { [fn |-> "rand", n |-> n, p |-> s[1], m |-> s[2], dt |-> d, dist |-> f, stable |-> TRUE, flaw |-> "no"] :
      n \in 0..(IF Big THEN 8 ELSE 6), s \in Shapes2, d \in Dts, f \in Dists }
  \cup { [fn |-> "rand", n |-> n, p |-> s[1], m |-> s[2], dt |-> d, dist |-> f, stable |-> FALSE, flaw |-> "no"] :
      n \in 0..(IF Big THEN 8 ELSE 6), s \in Shapes2, d \in Dts, f \in FullDists }
  \cup { [fn |-> "rand", n |-> n, p |-> 1, m |-> 2, dt |-> d, dist |-> "default", stable |-> b, flaw |-> f] :
      n \in 1..4, d \in {"null", "dt1"}, b \in BOOLEAN, f \in {"sum", "length", "negative", "size", "period"} }
Cat(u) == { [fn |-> "cat", x |-> x] : x \in Mods(0) }

All == (IF "plot" \in Fns THEN Plot(0) ELSE {}) \cup (IF "rand" \in Fns THEN Rand(0) ELSE {}) \cup (IF "cat" \in Fns THEN Cat(0) ELSE {})
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(All))

----------------------------------------------------------------------------
(* Layout of all lists of up to three models *)
VARIABLES fn, xs
vars == <<fn, xs>>
Init == fn \in PlotFns /\ xs = <<>>
Next == /\ Len(xs) < 3
        /\ \E p \in 1..3, m \in 1..3, d \in {"null", "1"} : xs' = Append(xs, [p |-> p, m |-> m, dt |-> d])
        /\ UNCHANGED fn
Spec == Init /\ [][Next]_vars
Cells == (1..PanelRows(fn, xs)) \X (1..PanelCols(fn, xs))
Held(c, q, w) == Cardinality({ a \in DOMAIN PanelCurves(fn, xs, c[1], c[2], TRUE) :
                                 PanelCurves(fn, xs, c[1], c[2], TRUE)[a] = [sys |-> q, what |-> w] })
(* every channel of every model is drawn once, in its own panel, and nothing else is drawn there *)
EachChannelOnce == xs = <<>> \/
  \A q \in DOMAIN xs, c \in Cells :
    LET has == OutputOf(fn, c[1]) <= xs[q].p /\ c[2] <= xs[q].m
        w == IF fn = "bode" THEN PartOf(fn, c[1]) ELSE IF fn = "nyquist" THEN "locus" ELSE "time"
    IN Held(c, q, w) = IF has THEN 1 ELSE 0
(* all channels of all models have a panel; no row or column of panels is without a use *)
RoomForAll == xs = <<>> \/
  /\ \A q \in DOMAIN xs, i \in 1..3, j \in 1..3 : (i <= xs[q].p /\ j <= xs[q].m) =>
       \E c \in Cells : OutputOf(fn, c[1]) = i /\ c[2] = j
  /\ \A r \in 1..PanelRows(fn, xs) : PanelCurves(fn, xs, r, 1, TRUE) # <<>>
  /\ \A j \in 1..PanelCols(fn, xs) : PanelCurves(fn, xs, 1, j, TRUE) # <<>>
(* one more model only adds its own curves, after those already there *)
DrawnOver == xs = <<>> \/
  LET ys == SubSeq(xs, 1, Len(xs) - 1)
  IN ys = <<>> \/ \A c \in (1..PanelRows(fn, ys)) \X (1..PanelCols(fn, ys)) :
       LET a == PanelCurves(fn, ys, c[1], c[2], TRUE)
           b == PanelCurves(fn, xs, c[1], c[2], TRUE)
       IN /\ Len(a) <= Len(b)
          /\ SubSeq(b, 1, Len(a)) = a
          /\ \A q \in (Len(a) + 1)..Len(b) : b[q].sys = Len(xs)
=============================================================================
