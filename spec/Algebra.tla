------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Meaning of the operators of the model classes: +, -, *, @, / and unary  *)
(* minus, for every mix of State, Transfer, numbers and arrays.            *)
(*                                                                         *)
(* Rule(op, X, Y) looks only at the facets of the operands (kind, shape,   *)
(* sampling period, static or not) and says what may happen:               *)
(*   how  |-> "raise"  the call has to raise                               *)
(*            "value"  the call has to return the model described          *)
(*            "either" raising and returning that model are both allowed   *)
(*   val  |-> which combination of the two transfer matrices is returned   *)
(*   k, p, m, dt |-> kind, shape and sampling period of the result         *)
(***************************************************************************)
EXTENDS LTI
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Siso(X) == X.p = 1 /\ X.m = 1
Scalar(X) == X.k = "A" /\ X.nd = 0
Same(X, Y) == X.p = Y.p /\ X.m = Y.m
HasState(X, Y) == X.k = "S" \/ Y.k = "S"
(* numpy broadcasting of two shapes *)
BCast(X, Y) == (X.p = Y.p \/ X.p = 1 \/ Y.p = 1) /\ (X.m = Y.m \/ X.m = 1 \/ Y.m = 1)
Max(a, b) == IF a < b THEN b ELSE a

Kind(X, Y) == IF HasState(X, Y) THEN "S" ELSE "T"
Dt(X, Y)   == IF X.k = "A" THEN Y.dt ELSE X.dt
DtClash(X, Y) == IsModel(X) /\ IsModel(Y) /\ X.dt # Y.dt

Out(how, val, X, Y, p, m) ==
  [how |-> how, val |-> val, k |-> Kind(X, Y), p |-> p, m |-> m, dt |-> Dt(X, Y)]
Raise(X, Y) == Out("raise", "none", X, Y, 0, 0)

(* A one-element array next to a MIMO model may be refused as a shape mismatch;
   so may a 1-D array, which a Transfer does not take as a row in a sum. *)
Touchy(X, Y) == \/ X.k = "A" /\ X.nd > 0 /\ ~Siso(Y) /\ (X.nd = 1 \/ Siso(X))
                \/ Y.k = "A" /\ Y.nd > 0 /\ ~Siso(X) /\ (Y.nd = 1 \/ Siso(Y))

AddRule(X, Y) ==
  CASE DtClash(X, Y) -> Raise(X, Y)
    [] Same(X, Y) \/ Siso(X) \/ Siso(Y) ->
         Out(IF Touchy(X, Y) THEN "either" ELSE "value", "add", X, Y, Max(X.p, Y.p), Max(X.m, Y.m))
    [] BCast(X, Y) /\ ~Same(X, Y) -> Out("either", "add", X, Y, Max(X.p, Y.p), Max(X.m, Y.m))
    [] OTHER -> Raise(X, Y)

(* matrix product; a SISO operand or a number scales the other one *)
MatmulRule(X, Y) ==
  CASE DtClash(X, Y) -> Raise(X, Y)
    [] Siso(X) \/ Siso(Y) ->
         Out(IF Touchy(X, Y) THEN "either" ELSE "value",
             "scal", X, Y, Max(X.p, Y.p), Max(X.m, Y.m))
    [] X.m = Y.p -> Out("value", "mm", X, Y, X.p, Y.m)
    [] OTHER -> Raise(X, Y)

(* entry by entry between Transfers, and between a Transfer and an array;
   State models know only the matrix product *)
MulRule(X, Y) ==
  CASE HasState(X, Y) -> MatmulRule(X, Y)
    [] DtClash(X, Y) -> Raise(X, Y)
    [] Siso(X) \/ Siso(Y) -> Out("value", "scal", X, Y, Max(X.p, Y.p), Max(X.m, Y.m))
    [] Same(X, Y) -> Out("value", "had", X, Y, X.p, X.m)
    [] OTHER -> Raise(X, Y)

(* X / Y is X @ Y^-1.  Whether Y has a proper inverse depends on its values:
   inv is "yes" or "no" (decided on the data), "zero" for division by the number 0. *)
DivRule(X, Y, inv) ==
  CASE DtClash(X, Y) -> Raise(X, Y)
    [] IsModel(Y) /\ (Y.p # Y.m \/ inv = "no") -> Raise(X, Y)
    [] Siso(X) \/ Siso(Y) ->
         Out("value", "sdiv", X, Y, Max(X.p, Y.p), Max(X.m, Y.m))
    [] X.m = Y.p -> Out("value", "div", X, Y, X.p, Y.m)
    [] OTHER -> Raise(X, Y)

Rule(op, X, Y, inv) ==
  CASE op \in {"add", "sub"} -> AddRule(X, Y)
    [] op = "mul" -> MulRule(X, Y)
    [] op = "matmul" -> MatmulRule(X, Y)
    [] op = "div" -> DivRule(X, Y, inv)

----------------------------------------------------------------------------
(* the values *)
Spread(A, p, m) ==      \* numpy broadcast of a matrix to p x m
  IF A.r = p /\ A.c = m THEN A
  ELSE MSel(A, SEval([i \in 1..p |-> IF A.r = 1 THEN 1 ELSE i]),
               SEval([j \in 1..m |-> IF A.c = 1 THEN 1 ELSE j]))

ScalM(A, B) == IF A.r = 1 /\ A.c = 1 THEN MScale(A.e[1][1], B) ELSE MScale(B.e[1][1], A)

Combine(op, val, p, m, A, B) ==      \* A, B: <<M>> or <<>>
  IF A = <<>> \/ B = <<>> THEN <<>>
  ELSE CASE val = "add" -> LET x == Spread(A[1], p, m)
                               y == Spread(B[1], p, m)
                           IN << IF op = "sub" THEN MSub(x, y) ELSE MAdd(x, y) >>
         [] val = "scal" -> << ScalM(A[1], B[1]) >>
         [] val = "had"  -> << MHad(A[1], B[1]) >>
         [] val = "mm"   -> << MMul(A[1], B[1]) >>
         [] val \in {"div", "sdiv"} ->
              LET I == MInv(B[1])
              IN IF I = <<>> THEN <<>>
                 ELSE IF val = "div" THEN << MMul(A[1], I[1]) >> ELSE << ScalM(A[1], I[1]) >>

(* does a square model have a proper inverse?  its value at infinity is invertible *)
AtInf(Y) ==
  CASE Y.k = "S" -> Y.d
    [] Y.k = "T" -> MEval([r |-> Y.p, c |-> Y.m, e |-> [i \in 1..Y.p |-> [j \in 1..Y.m |->
                     LET n == PTrim(Y.num[i][j])
                         d == PTrim(Y.den[i][j])
                     IN IF Len(n) < Len(d) THEN N0 ELSE NDiv(n[1], d[1])]]])
    [] Y.k = "A" -> Y.v
Invertible(Y) == IF Y.p # Y.m THEN "no" ELSE IF NIsZero(MDet(AtInf(Y))) THEN "no" ELSE "yes"
=============================================================================
