------------------------------ MODULE ScSignals ------------------------------
(***************************************************************************)
(* Call space of responses, norms and designs; and the laws of simulation  *)
(* on small integer models, explored by TLC: superposition, the channels   *)
(* add up, a pulse is the difference of two steps, time invariance.        *)
(***************************************************************************)
EXTENDS Norms, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Big

Sizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}
Dts == {"null", "dt1", "dt4"} \cup (IF Big THEN {"dt2", "dt3"} ELSE {})
Mods(u) == { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d] : k \in {"S", "T"}, s \in Sizes, g \in BOOLEAN, d \in Dts }
Units == {"Hz", "rad/s"}
Freq(u) ==
  { [fn |-> "freq", x |-> x, wu |-> a, ou |-> b, form |-> f, minreal |-> mr] :
      x \in Mods(0), a \in Units, b \in Units, f \in {"array", "list"}, mr \in {FALSE} }
  \cup { [fn |-> "freq", x |-> x, wu |-> a, ou |-> "rad/s", form |-> f, minreal |-> FALSE] :
      x \in { y \in Mods(0) : y.p * y.m # 2 }, a \in Units, f \in {"scalar", "one", "int", "column", "2d", "zero", "over", "allover", "nyq", "many", "neg", "companion0"} }
  \cup { [fn |-> "freq", x |-> x, wu |-> "rad/s", ou |-> b, form |-> f, minreal |-> TRUE] :
      x \in Mods(0), b \in Units, f \in {"array", "nonmin"} }
  \cup { [fn |-> "freq", x |-> x, wu |-> "rad/s", ou |-> "rad/s", form |-> f, minreal |-> FALSE] :
      x \in Mods(0), f \in {"nonmin", "companion0"} }
  \cup { [fn |-> "freq", x |-> x, wu |-> "HZ", ou |-> "Rad/s", form |-> "array", minreal |-> FALSE] : x \in Mods(0) }
Grid(u) ==
  { [fn |-> "grid", x |-> x, ou |-> b, poles |-> f, samples |-> n] :
      x \in Mods(0), b \in Units, f \in {"any", "int", "osc", "neg", "edge", "fast", "slow", "zero"}, n \in {0, 7} }
Sim(u) ==
  { [fn |-> "sim", x |-> x, pc |-> c, x0 |-> i, t |-> t, n |-> n, flaw |-> "no"] :
      x \in Mods(0), c \in BOOLEAN, i \in BOOLEAN, t \in {"zero", "shift", "none", "int"}, n \in {2, 5} }
  \cup { [fn |-> "sim", x |-> x, pc |-> c, x0 |-> i, t |-> "none", n |-> 1, flaw |-> "no"] : x \in Mods(0), c \in BOOLEAN, i \in BOOLEAN }
  \cup { [fn |-> "sim", x |-> x, pc |-> FALSE, x0 |-> FALSE, t |-> t, n |-> 4, flaw |-> f] :
      x \in Mods(0), t \in {"zero", "none"}, f \in {"uneven", "decreasing", "period", "short", "cols", "t2d", "x0size", "x02d", "u3d", "u1d", "urow", "lastgap", "midgap"} }
Resp(u) ==
  { [fn |-> "resp", x |-> x, resp |-> r, t |-> t, n |-> n, flaw |-> "no"] :
      x \in Mods(0), r \in {"step", "impulse"}, t \in {"zero", "shift", "int"}, n \in {2, 6} }
  \cup { [fn |-> "resp", x |-> x, resp |-> r, t |-> "zero", n |-> 4, flaw |-> f] :
      x \in Mods(0), r \in {"step", "impulse"}, f \in {"uneven", "decreasing", "period", "short", "t2d", "lastgap", "midgap"} }
Auto(u) ==
  { [fn |-> "auto", x |-> x, resp |-> r, poles |-> f] :
      x \in { y \in Mods(0) : ~y.gain }, r \in {"step", "impulse"},
      f \in {"any", "stable", "slow", "fast", "mixed", "unstable", "negunstable", "int", "doubleint", "osc", "minusone", "zero", "complex", "plain", "plainneg", "plaincx", "zerob"} }
  \cup { [fn |-> "auto", x |-> x, resp |-> r, poles |-> "any"] : x \in { y \in Mods(0) : y.gain }, r \in {"step", "impulse"} }
NormC(u) ==
  { [fn |-> "norm", x |-> x, p |-> p, poles |-> f, feed |-> d] :
      x \in { y \in Mods(0) : y.p + y.m <= 4 \/ (y.k = "S" /\ y.dt = "null") }, p \in {"2", "inf"}, f \in {"stable", "unstable", "int", "light", "real", "zero", "allpass"}, d \in BOOLEAN }
Lqr(u) ==
  { [fn |-> "lqr", x |-> x, on |-> o, r |-> r, s |-> s, form |-> f, flaw |-> "no"] :
      x \in { y \in Mods(0) : ~y.gain }, o \in {"state", "output"}, r \in BOOLEAN, s \in BOOLEAN, f \in {"array", "list", "int"} }
  \cup { [fn |-> "lqr", x |-> x, on |-> o, r |-> TRUE, s |-> TRUE, form |-> "array", flaw |-> f] :
      x \in Mods(0), o \in {"state", "output"}, f \in {"qshape", "rshape", "sshape", "qnonsym", "rnonsym", "gain", "name", "part", "case"} }
Ack(u) ==
  { [fn |-> "ack", n |-> n, locs |-> l, arg |-> a, flaw |-> "no", form |-> f, dt |-> d] :
      n \in 1..(IF Big THEN 5 ELSE 4), l \in {"real", "repeat", "zero", "pairs", "double", "mixed", "shuffled"}, a \in {"tuple", "state"}, f \in {"array", "list", "cx"}, d \in {"null", "dt1"} }
  \cup { [fn |-> "ack", n |-> n, locs |-> "real", arg |-> a, flaw |-> f, form |-> "array", dt |-> "null"] :
      n \in 2..4, a \in {"tuple", "state"}, f \in {"few", "many", "unpaired", "mimo", "unctrb", "2d", "none"} }

All == (IF "freq" \in Fns THEN Freq(0) ELSE {}) \cup (IF "grid" \in Fns THEN Grid(0) ELSE {})
       \cup (IF "sim" \in Fns THEN Sim(0) ELSE {}) \cup (IF "resp" \in Fns THEN Resp(0) ELSE {})
       \cup (IF "auto" \in Fns THEN Auto(0) ELSE {}) \cup (IF "norm" \in Fns THEN NormC(0) ELSE {})
       \cup (IF "lqr" \in Fns THEN Lqr(0) ELSE {}) \cup (IF "ack" \in Fns THEN Ack(0) ELSE {})
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(All))

----------------------------------------------------------------------------
(* Laws on small models: 1 or 2 states, 2 inputs, 1 output *)
VARIABLES par, us, vs           \* integers only
vars == <<par, us, vs>>
Vals == {-1, 0, 2}
Mx(rows) == MEval([r |-> Len(rows), c |-> Len(rows[1]), e |-> [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> NInt(rows[i][j])]]])
Built(q) == [a |-> Mx(<< <<q[1], 1>>, <<0, q[2]>> >>), b |-> Mx(<< <<1, q[3]>>, <<0, 1>> >>), c |-> Mx(<< <<1, q[4]>> >>), d |-> Mx(<< <<q[1], q[4]>> >>)]
Init == par \in Vals \X {-1, 1} \X Vals \X {0, 1} /\ us = <<>> /\ vs = <<>>
Next == /\ Len(us) < 3
        /\ \E a \in Vals \X {0, 1} : us' = Append(us, a)
        /\ \E b \in {<<1, 0>>, <<-1, 1>>} : vs' = Append(vs, b)
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
Sig(w) == SEval([q \in DOMAIN w |-> Mx(<< <<w[q][1]>>, <<w[q][2]>> >>)])
Y(w) == Simulate(Built(par), "1", N1, w, MZero(2, 1))
Plus(a, b) == SEval([q \in DOMAIN a |-> MAdd(a[q], b[q])])
SameOut(a, b) == Len(a) = Len(b) /\ \A q \in DOMAIN a : MIsZero(MSub(a[q], b[q]))
Superposition == SameOut(Y(Plus(Sig(us), Sig(vs))), Plus(Y(Sig(us)), Y(Sig(vs))))
ChannelsAddUp == SameOut(Y(Sig(us)), Plus(Y(Only(Sig(us), 1)), Y(Only(Sig(us), 2))))
TimeInvariant == us = <<>> \/ SameOut(Tail(Y(<<MZero(2, 1)>> \o Sig(us))), Y(Sig(us)))
PulseIsStepDifference ==
  LET s == Y(StepInput(2, 4))
      p == Y(PulseInput(2, 4, N1))
  IN \A q \in 1..4 : MIsZero(MSub(p[q], IF q = 1 THEN s[1] ELSE MSub(s[q], s[q - 1])))
=============================================================================
