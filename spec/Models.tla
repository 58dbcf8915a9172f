------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Rules of the functions that take one model (or two) apart from the      *)
(* operators: conversion, indexing, feedback, DC gain, minimal realization.*)
(***************************************************************************)
EXTENDS Algebra
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

----------------------------------------------------------------------------
(* Indexing.  An index of one axis of length n is a record:
     [t |-> "all"]                      nothing or a bare colon
     [t |-> "int", i]                   an integer
     [t |-> "list", l]                  a list of integers
     [t |-> "slice", a, b, s]           a:b:s, each a record [none] or [none, v]
   Sel gives <<positions>> (1-based, in order) or <<>> for an index error.   *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == i >= -n /\ i < n

Opt(o, d) == IF o.none THEN d ELSE o.v
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Walk(_, _, _)
Walk(x, stop, step) ==
  IF (step > 0 /\ x >= stop) \/ (step < 0 /\ x <= stop) THEN <<>>
  ELSE <<x + 1>> \o Walk(x + step, stop, step)
SliceSel(ix, n) ==
  LET s == Opt(ix.s, 1)
      lo == IF s > 0 THEN 0 ELSE -1
      hi == IF s > 0 THEN n ELSE n - 1
      fix(o, d) == IF o.none THEN d
                   ELSE Clamp(IF o.v < 0 THEN o.v + n ELSE o.v, lo, hi)
  IN Walk(fix(ix.a, IF s > 0 THEN 0 ELSE n - 1), fix(ix.b, IF s > 0 THEN n ELSE -1), s)

Sel(ix, n) ==
  CASE ix.t = "all"   -> << Range1(n) >>
    [] ix.t = "int"   -> IF InRange(ix.i, n) THEN << <<Norm(ix.i, n) + 1>> >> ELSE <<>>
    [] ix.t = "list"  -> IF \A q \in DOMAIN ix.l : InRange(ix.l[q], n)
                         THEN << SEval([q \in DOMAIN ix.l |-> Norm(ix.l[q], n) + 1]) >> ELSE <<>>
    [] ix.t = "slice" -> << SEval(SliceSel(ix, n)) >>

SubM(A, rs, cs) == IF A = <<>> THEN <<>> ELSE << MSel(A[1], rs, cs) >>

----------------------------------------------------------------------------
(* Feedback.  facets *)
FbKind(X, Y) == IF X.k = "S" \/ Y.k = "S" \/ (X.k = "A" /\ Y.k = "A") THEN "S" ELSE "T"
FbFits(X, Y) == X.p = Y.m /\ X.m = Y.p
(* e = r + s H G e ;  loop value at a point: G (I - s H G)^-1, s = +1 / -1 *)
Loop(G, H, s) ==
  IF G = <<>> \/ H = <<>> THEN <<>>
  ELSE LET d == MSub(MEye(G[1].c), MScale(NInt(s), MMul(H[1], G[1])))
           I == MInv(d)
       IN IF I = <<>> THEN <<>> ELSE << MMul(G[1], I[1]) >>
WellPosed(Dg, Dh, s) == ~NIsZero(MDet(MSub(MEye(Dg.c), MScale(NInt(s), MMul(Dh, Dg)))))

(* Known finding feedback-feedthrough: for negative feedback the library solves with
   I - N D where I + N D is meant (N, D the direct feedthroughs of H and G).  The model
   it then returns is G (H G + I - 2 N D)^-1 (I - 2 N D).                              *)
LoopDev(G, H, Dg, Dh) ==
  IF G = <<>> \/ H = <<>> THEN <<>>
  ELSE LET W == MSub(MEye(G[1].c), MScale(NInt(2), MMul(Dh, Dg)))
           I == MInv(MAdd(MMul(H[1], G[1]), W))
       IN IF I = <<>> THEN <<>> ELSE << MMul(G[1], MMul(I[1], W)) >>

----------------------------------------------------------------------------
(* One entry of a parsed model as a reduced fraction <<num, den>> *)
Reduced(n, d) ==
  IF n = <<>> THEN << <<>>, <<N1>> >>
  ELSE LET g == PGcd(n, d) IN << PDivMod(n, g)[1], PDivMod(d, g)[1] >>
EntryFrac(Y, i, j) ==
  CASE Y.k = "T" -> Reduced(PTrim(Y.num[i][j]), PTrim(Y.den[i][j]))
    [] Y.k = "S" -> IF Y.n = 0 THEN << PTrim(<<Y.d.e[i][j]>>), <<N1>> >>
                    ELSE LET b == MCols(Y.b, <<j>>)
                             c == MRows(Y.c, <<i>>)
                             q == MCharPoly(Y.a)
                             (* det(sI - A + bc) - det(sI - A) = c adj(sI - A) b *)
                             w == MCharPoly(MSub(Y.a, MMul(b, c)))
                         IN Reduced(PAdd(PSub(w, q), PScale(Y.d.e[i][j], q)), q)

(* value of the entry at a point, after cancellation: <<number>> or <<>> for a pole *)
EntryAt(Y, i, j, s) ==
  LET f == EntryFrac(Y, i, j)
      d == PEval(f[2], s)
  IN IF NIsZero(d) THEN <<>> ELSE << NDiv(PEval(f[1], s), d) >>
DcPoint(dt) == IF dt = "null" THEN N0 ELSE N1

----------------------------------------------------------------------------
(* orders *)
RECURSIVE KryC(_, _, _)
KryC(A, B, k) == IF k = 1 THEN B ELSE MHcat(B, MMul(A, KryC(A, B, k - 1)))
Ctrb(A, B) == IF A.r = 0 THEN MZero(0, B.c) ELSE KryC(A, B, A.r)
Obsv(A, C) == MTrans(Ctrb(MTrans(A), MTrans(C)))
MinOrder(Y) ==      \* McMillan degree of a state record
  IF Y.n = 0 THEN 0 ELSE MRank(MMul(Obsv(Y.a, Y.c), Ctrb(Y.a, Y.b)))
=============================================================================
