------------------------------ MODULE ScReport -------------------------------
(***************************************************************************)
(* Call space of pole_properties, to_array and the printed description;    *)
(* and, explored by TLC over a grid of poles, that frequency and damping   *)
(* determine the pole: the ones of a pole describe it and no other pole of *)
(* the grid but its conjugate.                                             *)
(***************************************************************************)
EXTENDS Report, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Big

Sizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>} \cup (IF Big THEN {<<3, 2>>, <<2, 3>>, <<1, 3>>} ELSE {})
Dts == {"null", "dt1", "dt3", "dt4"} \cup (IF Big THEN {"dt2"} ELSE {})
Mods(u) == { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d] : k \in {"S", "T"}, s \in Sizes, g \in BOOLEAN, d \in Dts }
Poles == {"any", "stable", "slow", "fast", "mixed", "unstable", "negunstable", "int", "doubleint", "osc", "minusone", "zero", "complex", "plain", "plainneg", "plaincx", "light", "real", "neg", "edge"}
All == { [fn |-> f, x |-> x, poles |-> p] : f \in Fns, x \in { y \in Mods(0) : ~y.gain }, p \in Poles }
       \cup { [fn |-> f, x |-> x, poles |-> "any"] : f \in Fns, x \in { y \in Mods(0) : y.gain } }
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(All))

----------------------------------------------------------------------------
VARIABLES re, im, r2, i2
vars == <<re, im, r2, i2>>
Vals == {-3, -1, 0, 2}
Init == re \in Vals /\ im \in {0, 1, 2} /\ r2 \in Vals /\ i2 \in {0, 1, 2} /\ <<re, im>> # <<0, 0>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Mode == NCplx(NInt(re), NInt(im))
Other == NCplx(NInt(r2), NInt(i2))
F == NSqrt(NAbs2(Mode))
D == NDiv(NInt(-re), F)
T == "1p-1"
ContinuousDescribed == Describes(F, D, Mode, "null", Tol6) /\ (Describes(F, D, Other, "null", Tol6) <=> Mode = Other)
DiscreteDescribed ==
  LET z == PoleOf(Mode, T)
      y == PoleOf(Other, T)
  IN Describes(F, D, z, T, Tol6) /\ (Describes(F, D, y, T, Tol6) <=> Mode = Other)
=============================================================================
