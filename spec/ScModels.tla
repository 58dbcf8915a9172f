------------------------------ MODULE ScModels ------------------------------
(***************************************************************************)
(* Call space of conversion, indexing, feedback, DC gain and minimal       *)
(* realization, by class of the model: kind, shape, static or dynamic,     *)
(* sampling period, and a flavour naming a structural peculiarity.         *)
(***************************************************************************)
EXTENDS Models, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Shapes, Dts

Flav(k, g) == IF g THEN {"gen", "small", "big"}
              ELSE IF k = "T" THEN {"gen", "cancel", "strict", "biproper", "integ", "common", "zero", "multi", "small", "big", "slow", "near"}
              ELSE {"gen", "strict", "zerocol", "unctrb", "unobs", "nonmin", "integ", "jordan", "iso", "small", "big", "slow", "zero"}
Class == UNION { { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d, fl |-> f] : s \in Shapes, d \in Dts, f \in Flav(k, g) }
                 : k \in {"S", "T"}, g \in BOOLEAN }
Plain == { c \in Class : c.fl = "gen" }

Conv(u) == { [fn |-> "conv", x |-> c, to |-> t, rawin |-> ri, rawout |-> ro] :
          c \in Class, t \in {"S", "T"}, ri \in BOOLEAN, ro \in BOOLEAN }
ConvOK(u) == { s \in Conv(0) : (s.x.k = s.to => ~s.rawin /\ ~s.rawout) /\ (s.rawin => s.x.dt = "null") }

(* index forms of an axis of length n *)
None == [none |-> TRUE, v |-> 0]
V(x) == [none |-> FALSE, v |-> x]
Bounds(n) == {None} \cup {V(x) : x \in {0, 1, -1, n + 2}}
Forms(n) ==
  { [t |-> "all"] } \cup { [t |-> "int", i |-> i] : i \in (-n - 1)..n } \cup
  { [t |-> "list", l |-> l] : l \in { <<0>>, <<n - 1, 0>>, <<-1>>, <<0, -1, 0>>, <<n>>, [q \in 1..n |-> n - q] } } \cup
  { [t |-> "slice", a |-> a, b |-> b, s |-> s] : a \in Bounds(n), b \in Bounds(n), s \in {None, V(2), V(-1)} }
Few(n) == { [t |-> "all"], [t |-> "int", i |-> -1], [t |-> "list", l |-> [q \in 1..n |-> n - q]] }
(* rows and columns by shape, then spread over the classes of that shape *)
Pairs(s) == (Forms(s[1]) \X Few(s[2])) \cup (Few(s[1]) \X Forms(s[2])) \cup (Forms(s[1]) \X { [t |-> "none"] })
Index(u) == UNION { { [fn |-> "index", x |-> [k |-> k, p |-> s[1], m |-> s[2], gain |-> g,
                                              dt |-> IF g THEN "dt1" ELSE "null", fl |-> "gen"],
                       rows |-> q[1], cols |-> q[2]] :
                      k \in {"S", "T"}, g \in BOOLEAN, q \in Pairs(s) } : s \in Shapes }
SetItem(u) == { [fn |-> "setitem", x |-> c] : c \in Plain }

Arr(p, m, nd) == [k |-> "A", p |-> p, m |-> m, gain |-> TRUE, dt |-> "null", fl |-> "gen", nd |-> nd]
Arrs == { Arr(1, 1, 0) } \cup { Arr(s[1], s[2], 2) : s \in Shapes }
(* feed: direct feedthroughs of the two: none / one / both / ill posed / almost ill posed *)
Feedback(u) ==
  { [fn |-> "feedback", x |-> x, y |-> y, neg |-> n, feed |-> f] :
      x \in Plain \cup Arrs, y \in Plain \cup Arrs, n \in BOOLEAN,
      f \in {"none", "x", "y", "both", "ill", "near"} }
FbOK(s) == /\ (s.x.k = "A" /\ s.y.k = "A") => (s.x.p = s.x.m /\ s.x.dt = s.y.dt)
           /\ (s.x.dt = s.y.dt \/ s.x.k = "A" \/ s.y.k = "A" \/ (s.feed = "none" /\ FbFits(s.x, s.y)))
           /\ (FbFits(s.x, s.y) \/ (s.feed = "none" /\ s.neg))
           /\ (s.feed \in {"none", "y"} => ~s.x.gain) /\ (s.feed \in {"none", "x"} => ~s.y.gain)
           /\ (s.feed \in {"ill", "near"} => s.x.p = s.x.m)
           (* a closed loop with a far pole is badly conditioned as a transfer matrix *)
           /\ (s.feed = "near" => s.x.p = 1 \/ s.x.k = "S" \/ s.y.k = "S")
FbZero(u) == { [fn |-> "feedback", x |-> x, y |-> y, neg |-> n, feed |-> f] :
      x \in { c \in Plain \cup Arrs : c.gain }, y \in {c \in Plain \cup Arrs : c.gain}, n \in BOOLEAN,
      f \in {"zx", "zy"} }
FeedbackOK(u) == { s \in Feedback(0) : FbOK(s) } \cup
              { s \in FbZero(0) : FbFits(s.x, s.y) /\ (s.x.k = "A" \/ s.y.k = "A" \/ s.x.dt = s.y.dt) }

(* modes very near the DC point, yet not on it; modes there with gains far from one *)
Close(u) == { [fn |-> "dc", x |-> [k |-> k, p |-> s[1], m |-> s[2], gain |-> FALSE, dt |-> d, fl |-> "close"]] : k \in {"S", "T"}, s \in Shapes, d \in Dts }
            \cup { [fn |-> "dc", x |-> [k |-> "T", p |-> s[1], m |-> s[2], gain |-> FALSE, dt |-> d, fl |-> "faint"]] : s \in Shapes, d \in Dts }
One(fn) == { [fn |-> fn, x |-> c] : c \in Class }

Calls == (IF "conv" \in Fns THEN ConvOK(0) ELSE {}) \cup
         (IF "index" \in Fns THEN Index(0) \cup SetItem(0) ELSE {}) \cup
         (IF "feedback" \in Fns THEN FeedbackOK(0) ELSE {}) \cup
         (IF "dc" \in Fns THEN One("dc") \cup Close(0) ELSE {}) \cup
         (IF "minreal" \in Fns THEN One("minreal") ELSE {})

----------------------------------------------------------------------------
(* TLC visits every call and checks the index arithmetic of the specification *)
VARIABLES sc
Init == sc \in Calls
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc

(* selected positions exist; a slice is an arithmetic progression; reversing twice is the identity *)
SelOK(ix, n) ==
  ix.t # "none" =>
  LET s == Sel(ix, n) IN s # <<>> =>
    /\ \A q \in DOMAIN s[1] : s[1][q] \in 1..n
    /\ ix.t = "slice" => /\ Cardinality(ToSet(s[1])) = Len(s[1])
                         /\ \A q \in 1..(Len(s[1]) - 1) : s[1][q + 1] - s[1][q] = Opt(ix.s, 1)
                         /\ Len(s[1]) <= n
    /\ ix.t = "int" => Len(s[1]) = 1
IndexSound == sc.fn = "index" => SelOK(sc.rows, sc.x.p) /\ SelOK(sc.cols, sc.x.m)
(* every loop in the space is either closable or has a stated reason to be refused *)
LoopTyped == sc.fn = "feedback" => FbKind(sc.x, sc.y) \in {"S", "T"}

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
