----------------------------- MODULE EvAlgebra -----------------------------
(***************************************************************************)
(* Verdicts on recorded arithmetic calls.  An event is                     *)
(*   [op, x, y, x2, y2, out]   out = [t |-> "err", e |-> class name] or    *)
(*                             [t |-> "ok", g |-> recorded result]         *)
(* x, y: operands before the call, x2, y2: the same objects after it.      *)
(* The verdict is the set of names of the clauses that fail.               *)
(***************************************************************************)
EXTENDS Algebra
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

If(c, name) == IF c THEN {} ELSE {name}

RefusalOK(e) == e \in {"ValueError", "LinAlgError", "IndexError", "TypeError", "ZeroDivisionError"}
CleanRefusal(e) == e \in {"ValueError", "LinAlgError", "ZeroDivisionError"}

(* facets of a returned model that do not need arithmetic *)
FacetViol(G, r) ==
  If(G.k = r.k, "kind") \cup If(G.p = r.p /\ G.m = r.m, "shape") \cup If(G.dt = r.dt, "dt")

(* G is a coherent, finite model record *)
SoundModel(G) == G.k \in {"S", "T"} /\ ShapeOK(G) /\ NumericOK(G)

Tol(op) == Tol5

(* size of the operands that enter the result *)
BinSize(op, val, xs, ys) ==
  LET mag(i) == IF xs[i] = <<>> \/ ys[i] = <<>> THEN N0
                ELSE IF val = "add" THEN NAdd(MMax(xs[i][1]), MMax(ys[i][1]))
                ELSE IF val \in {"div", "sdiv"}
                     THEN LET I == MInv(ys[i][1]) IN IF I = <<>> THEN N0 ELSE NMul(MMax(xs[i][1]), MMax(I[1]))
                ELSE NMul(MMax(xs[i][1]), MMax(ys[i][1]))
  IN NMin(N1, NMul(NInt(16), Largest(SEval([i \in NS |-> mag(i)]), NS)))

BinViol(ev) ==
  LET px == Parsed(ev.x)
      py == Parsed(ev.y)
      inv == IF ev.op = "div" /\ IsModel(ev.y) THEN Invertible(py) ELSE "yes"
      r  == Rule(ev.op, ev.x, ev.y, inv)
      G  == ev.out.g
      xs == AtSamples(px)
      ys == AtSamples(py)
      es == SEval([i \in NS |-> Combine(ev.op, r.val, r.p, r.m, xs[i], ys[i])])
  IN If(ev.x = ev.x2 /\ ev.y = ev.y2, "operands-changed") \cup
     IF ev.out.t = "err"
     THEN IF r.how = "value" THEN {"refused-valid"}
          ELSE If(CleanRefusal(ev.out.e), "error-class") \cup
               If(DtClash(ev.x, ev.y) => ev.out.e = "ValueError", "dt-error-class")
     ELSE IF DtClash(ev.x, ev.y) THEN {"accepted-dt"}
     ELSE IF r.how = "raise" THEN {"accepted-invalid"}
     ELSE IF G.k \notin {"S", "T"} THEN {"not-a-model"}
     ELSE IF ~(ShapeOK(G) /\ NumericOK(G)) THEN {"malformed"}
     ELSE FacetViol(G, r) \cup
          IF G.p # r.p \/ G.m # r.m THEN {}
          ELSE IF ~Conclusive(es) THEN {"~inconclusive"}
          ELSE If(SameSystemF(AtSamples(Parsed(G)), es, BinSize(ev.op, r.val, xs, ys), Tol(ev.op)), "value")

NegViol(ev) ==
  LET G == ev.out.g
      xs == AtSamples(Parsed(ev.x))
      es == SEval([i \in NS |-> IF xs[i] = <<>> THEN <<>> ELSE << MNeg(xs[i][1]) >>])
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF G.k \notin {"S", "T"} \/ ~(ShapeOK(G) /\ NumericOK(G)) THEN {"malformed"}
     ELSE FacetViol(G, [k |-> ev.x.k, p |-> ev.x.p, m |-> ev.x.m, dt |-> ev.x.dt]) \cup
          IF G.p # ev.x.p \/ G.m # ev.x.m THEN {}
          ELSE IF ~Conclusive(es) THEN {"~inconclusive"}
          ELSE If(SameSystemF(AtSamples(Parsed(G)), es, SizeOf(es), Tol6), "value")
=============================================================================
