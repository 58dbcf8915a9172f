----------------------------- MODULE ScAlgebra -----------------------------
(***************************************************************************)
(* The space of arithmetic calls, by operand class: kind, shape, static or *)
(* dynamic, sampling period, magnitude of the data, array dimension.  TLC visits every call once, *)
(* checks the design properties of Rule on it, and writes the list of      *)
(* calls that the harness then makes on the real library.                  *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Ops, Shapes, Dts, ArrShapes1, ArrShapes2, Mixed, Flavours

Models == { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d, nd |-> -1, fl |-> "gen"] :
            k \in {"S", "T"}, s \in Shapes, g \in BOOLEAN, d \in Dts }
Arrays == { [k |-> "A", p |-> 1, m |-> 1, gain |-> TRUE, dt |-> "null", nd |-> 0, fl |-> "gen"] } \cup
          { [k |-> "A", p |-> 1, m |-> s, gain |-> TRUE, dt |-> "null", nd |-> 1, fl |-> "gen"] : s \in ArrShapes1 } \cup
          { [k |-> "A", p |-> s[1], m |-> s[2], gain |-> TRUE, dt |-> "null", nd |-> 2, fl |-> "gen"] : s \in ArrShapes2 }

Thin(x) == x.p <= 2 /\ x.m <= 2 /\ (x.p = x.m)
(* unusual magnitudes: the zero system, small and large values, slow poles; next to a usual operand *)
Odd == { [x EXCEPT !.fl = f] : x \in { y \in Models : Thin(y) }, f \in Flavours }
OddPairs == { q \in (Odd \X { y \in Models : Thin(y) }) : q[1].dt = q[2].dt /\ (q[1].gain => q[1].fl # "slow") }
OddArr == { x \in Arrays : x.nd = 0 }

(* clashing sampling periods are the same refusal for every class: a slice of the space is enough *)
Pairs == { <<x, y>> \in Models \X Models : x.dt = y.dt \/ (Mixed /\ Thin(x) /\ Thin(y)) } \cup
         (Models \X Arrays) \cup (Arrays \X Models) \cup
         OddPairs \cup { <<q[2], q[1]>> : q \in OddPairs } \cup (Odd \X OddArr) \cup (OddArr \X Odd)

DivOK(x, y) == (x.k = "A" => x.nd = 0) /\ (y.k = "A" => y.nd = 0)
Scen == { [op |-> o, x |-> q[1], y |-> q[2]] : o \in Ops, q \in Pairs } 
Legal(s) == s.op = "div" => DivOK(s.x, s.y)
Calls == { s \in Scen : Legal(s) }

VARIABLES sc, res
vars == <<sc, res>>
Init == sc \in Calls /\ res = [how |-> "?"]
Next == res.how = "?" /\ res' = Rule(sc.op, sc.x, sc.y, "yes") /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars

Done == res.how # "?"
TypeOK == Done => res.how \in {"raise", "value", "either"} /\ res.k \in {"S", "T"}
(* State wins over Transfer *)
StateWins == Done /\ res.how # "raise" => (res.k = "S") = (sc.x.k = "S" \/ sc.y.k = "S")
(* no operation moves a model to another time base *)
OneTimeBase == Done /\ res.how # "raise" =>
   \A z \in {sc.x, sc.y} : z.k # "A" => z.dt = res.dt
(* addition is commutative and never shrinks an operand *)
AddSym == Done /\ sc.op \in {"add", "sub"} =>
   LET r == Rule(sc.op, sc.y, sc.x, "yes")
   IN /\ r.how = res.how
      /\ res.how # "raise" => /\ r.k = res.k /\ r.p = res.p /\ r.m = res.m /\ r.dt = res.dt
                              /\ res.p >= sc.x.p /\ res.m >= sc.y.m
(* conformable operands are never refused outright *)
Total == Done /\ sc.x.k # "A" /\ sc.y.k # "A" /\ sc.x.dt = sc.y.dt =>
   /\ sc.op \in {"add", "sub"} /\ Same(sc.x, sc.y) => res.how = "value"
   /\ sc.op = "matmul" /\ sc.x.m = sc.y.p => res.how = "value"

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
