----------------------------- MODULE Workspace -----------------------------
(***************************************************************************)
(* A session: a few named models, and calls that combine them.  A slot     *)
(* holds the facets of a model, [k, p, m, dt, n]; n bounds its order.      *)
(* Effect(ws, act) is what a call does to the facets, so a session of the  *)
(* real library can be followed step by step (EvWorkspace), and TLC can    *)
(* produce sessions to be replayed (ScWorkspace).                          *)
(*                                                                         *)
(* act.a: "bin" [op, i, j, t], "arr" [op, i, y, left, t], "neg" [i, t],    *)
(*   "conv" [i, to, t], "index" [i, rows, cols, t], "minreal" [i, t],      *)
(*   "fb" [i, j, neg, t], "disc" [i, dt, t], "undisc" [i, t],              *)
(*   "set" [i, dt], "bad" [op, i, y, left] - an operand that is no model   *)
(*   and no real array.                                                    *)
(* t is the slot that receives the result; a refused call changes nothing. *)
(***************************************************************************)
EXTENDS Models
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Ret(how, k, p, m, dt, n) == [how |-> how, k |-> k, p |-> p, m |-> m, dt |-> dt, n |-> n]
No == [how |-> "raise"]
Clash == [how |-> "clash"]            \* refused because of the sampling periods

(* order bounds: states of a State, sum of the denominator degrees of a Transfer *)
Cells(x) == x.p * x.m
AsState(x) == x.n
AsTransfer(x) == IF x.k = "S" THEN Cells(x) * x.n ELSE x.n
SumOrder(x, y, r) ==
  IF r.k = "S" THEN x.n + y.n
  ELSE (IF Siso(x) THEN r.p * r.m * x.n ELSE x.n) + (IF Siso(y) THEN r.p * r.m * y.n ELSE y.n)
MulOrder(x, y, r) ==
  IF r.k = "S" THEN x.n + y.n
  ELSE IF r.val = "mm" THEN y.m * x.n + x.p * y.n ELSE SumOrder(x, y, r)

BinEffect(op, x, y) ==
  LET r == Rule(op, x, y, "yes")
  IN IF DtClash(x, y) THEN Clash
     ELSE IF r.how = "raise" THEN No
     ELSE Ret(IF op = "div" /\ IsModel(y) THEN "either" ELSE r.how, r.k, r.p, r.m, r.dt,
              IF op \in {"add", "sub"} THEN SumOrder(x, y, r) ELSE MulOrder(x, y, r))

FbEffect(x, y) ==
  IF DtClash(x, y) THEN Clash
  ELSE IF ~FbFits(x, y) THEN No
  ELSE Ret("either", FbKind(x, y), x.p, x.m, Dt(x, y),
           IF FbKind(x, y) = "S" THEN x.n + y.n ELSE Cells(x) * (x.n + y.n))

IndexEffect(x, rows, cols) ==
  LET rs == Sel(rows, x.p)
      cs == Sel(cols, x.m)
  IN IF rs = <<>> \/ cs = <<>> THEN No
     ELSE IF rs[1] = <<>> \/ cs[1] = <<>> THEN [how |-> "free"]
     ELSE Ret("value", x.k, Len(rs[1]), Len(cs[1]), x.dt, x.n)

Effect(ws, act) ==
  CASE act.a = "bin" -> BinEffect(act.op, ws[act.i], ws[act.j])
    [] act.a = "arr" -> IF act.left THEN BinEffect(act.op, act.y, ws[act.i]) ELSE BinEffect(act.op, ws[act.i], act.y)
    [] act.a = "bad" -> No
    [] act.a = "neg" -> LET x == ws[act.i] IN Ret("value", x.k, x.p, x.m, x.dt, x.n)
    [] act.a = "minreal" -> LET x == ws[act.i] IN Ret("value", x.k, x.p, x.m, x.dt, x.n)
    [] act.a = "conv" -> LET x == ws[act.i]
                         IN Ret("value", act.to, x.p, x.m, x.dt, IF act.to = x.k THEN x.n ELSE IF act.to = "S" THEN AsState(x) ELSE AsTransfer(x))
    [] act.a = "index" -> IndexEffect(ws[act.i], act.rows, act.cols)
    [] act.a = "fb" -> FbEffect(ws[act.i], ws[act.j])
    [] act.a = "set" -> LET x == ws[act.i] IN Ret("value", x.k, x.p, x.m, act.dt, x.n)

Target(act) == IF act.a = "set" THEN act.i ELSE act.t
Slot(r) == [k |-> r.k, p |-> r.p, m |-> r.m, dt |-> r.dt, n |-> r.n, nd |-> -1]
(* the session after a call that went as Effect allows; done: it returned *)
After(ws, act, done) ==
  LET r == Effect(ws, act)
  IN IF act.a = "bad" \/ ~done \/ r.how \in {"raise", "clash", "free"} THEN ws
     ELSE [ws EXCEPT ![Target(act)] = Slot(r)]
=============================================================================
