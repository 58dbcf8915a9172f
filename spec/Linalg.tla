------------------------------- MODULE Linalg -------------------------------
(***************************************************************************)
(* Exact definitions behind the matrix and polynomial functions: ranks of  *)
(* Krylov sequences, staircase patterns, controllability indices, zeros of *)
(* the system matrix, Lyapunov equations, divisors and multiples.          *)
(***************************************************************************)
EXTENDS Models
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL FSE == INSTANCE FiniteSetsExt

Tol7 == NFrac(1, 10000000)
Tol8 == NFrac(1, 100000000)
Tol9 == NFrac(1, 1000000000)

Orthogonal(U, tol) == U.r = U.c /\ NLe(MDist(MMul(MCTrans(U), U), MEye(U.r)), tol)
(* entries (i, j) with P(i, j) vanish, relative to 1 + |A| *)
Vanish(A, P(_, _), tol, scale) ==
  \A i \in 1..A.r, j \in 1..A.c : P(i, j) => NLe(NMag(A.e[i][j]), NMul(tol, scale))

----------------------------------------------------------------------------
(* rank of [B AB ... A^(k-1) B] *)
KryRank(A, B, k) == IF k = 0 THEN 0 ELSE MRank(KryC(A, B, k))
KryRanks(A, B) == SEval([k \in 1..(A.r + 1) |-> KryRank(A, B, k)])

(* Controllable staircase pattern of (Ah, Bh): the first rk coordinates span the
   image of the first k Krylov blocks, so everything below is zero.            *)
StairPattern(A, B, Ah, Bh, tol) ==
  LET r == KryRanks(A, B)
      sa == NAdd(N1, MMax(A))
      sb == NAdd(N1, MMax(B))
  IN /\ Vanish(Bh, LAMBDA i, j : i > r[1], tol, sb)
     /\ \A k \in 1..A.r : Vanish(Ah, LAMBDA i, j : j <= r[k] /\ i > r[k + 1], tol, sa)

Rev(n) == SEval([q \in 1..n |-> n + 1 - q])
FlipBoth(A) == MSel(A, Rev(A.r), Rev(A.c))
FlipRows(A) == MSel(A, Rev(A.r), Range1(A.c))

----------------------------------------------------------------------------
(* Controllability indices as a multiset: the number of indices that are at least k
   is the k-th rank increment.  This does not depend on the order in which columns
   of one power of A are examined.                                               *)
CtrbCounts(A, B) == LET r == KryRanks(A, B)
                    IN SEval([k \in 1..A.r |-> IF k = 1 THEN r[1] ELSE r[k] - r[k - 1]])
IndexCount(ind, k) == Cardinality({ j \in DOMAIN ind : ind[j] >= k })

----------------------------------------------------------------------------
(* Lagrange interpolation *)
RECURSIVE LagBasis(_, _, _)
LagBasis(xs, k, j) ==
  IF j > Len(xs) THEN <<N1>>
  ELSE IF j = k THEN LagBasis(xs, k, j + 1)
  ELSE PMul(PScale(NDiv(N1, NSub(xs[k], xs[j])), <<N1, NNeg(xs[j])>>), LagBasis(xs, k, j + 1))
RECURSIVE LagSum(_, _, _)
LagSum(xs, ys, k) == IF k > Len(xs) THEN <<>>
                     ELSE PAdd(PScale(ys[k], LagBasis(xs, k, 1)), LagSum(xs, ys, k + 1))
Interp(xs, ys) == LagSum(xs, ys, 1)

RECURSIVE Subs(_, _)                      \* increasing sequences of length k in 1..n
Subs(n, k) == IF k = 0 THEN { <<>> } ELSE IF n < k THEN {}
              ELSE Subs(n - 1, k) \cup { Append(s, n) : s \in Subs(n - 1, k - 1) }

(* the system matrix [sI - A, B; -C, D] at a point *)
Pencil(A, B, C, D, s) ==
  MVcat(MHcat(MSub(MScale(s, MEye(A.r)), A), B), MHcat(MNeg(C), D))
ProbePoints == << NFrac(37, 11), NFrac(-53, 13), NFrac(91, 17) >>
NormalRank(A, B, C, D) ==
  LET r(i) == MRank(Pencil(A, B, C, D, ProbePoints[i]))
  IN CHOOSE k \in {r(1), r(2), r(3)} : \A q \in {r(1), r(2), r(3)} : q <= k

(* gcd of the minors of the system matrix of the order of its normal rank: the roots,
   with multiplicity, are the finite points where it loses rank                     *)
ZeroPoly(A, B, C, D) ==
  LET n == A.r
      k == NormalRank(A, B, C, D)
      xs == SEval([q \in 1..(n + 1) |-> NInt(q - 1 - n \div 2)])
      P == SEval([q \in 1..(n + 1) |-> Pencil(A, B, C, D, xs[q])])
      minor(rs, cs) == Interp(xs, SEval([q \in 1..(n + 1) |-> MDet(MSel(P[q], rs, cs))]))
      step(rc, g) == IF g = <<N1>> THEN g ELSE PGcd(minor(rc[1], rc[2]), g)
  IN FSE!FoldSet(step, <<>>, Subs(n + C.r, k) \X Subs(n + B.c, k))

(* recorded roots (sequence of numbers, a missing conjugate shows as complex coefficients)
   against a monic polynomial *)
RootsAre(rs, p, tol) == Len(rs) = Len(p) - 1 /\ CloseP(PFromRoots(rs), p, tol)

----------------------------------------------------------------------------
(* Lyapunov equations.  form "c": E'XA + A'XE + Y = 0, form "d": A'XA - E'XE + Y = 0 *)
LyapRes(A, Y, E, form, X) ==
  LET Ta == MTrans(A)
      Te == MTrans(E)
  IN IF form = "c" THEN MAdd(MAdd(MMul(Te, MMul(X, A)), MMul(Ta, MMul(X, E))), Y)
     ELSE MAdd(MSub(MMul(Ta, MMul(X, A)), MMul(Te, MMul(X, E))), Y)
(* the linear operator on vec(X): E' (x) A' + A' (x) E', or A' (x) A' - E' (x) E' *)
LyapOp(A, E, form) ==
  LET Ta == MTrans(A)
      Te == MTrans(E)
  IN IF form = "c" THEN MAdd(MKron(Te, Ta), MKron(Ta, Te)) ELSE MSub(MKron(Ta, Ta), MKron(Te, Te))
LyapUnique(A, E, form) == ~NIsZero(MDet(LyapOp(A, E, form)))

----------------------------------------------------------------------------
(* polynomials given as recorded coefficient texts; [] and all zeros are the zero polynomial *)
RECURSIVE SeqFold(_, _, _)
SeqFold(op(_, _), base, s) == IF s = <<>> THEN base ELSE op(Head(s), SeqFold(op, base, Tail(s)))
GcdAll(ps) == SeqFold(PGcd, <<>>, ps)
RECURSIVE NPowI(_, _)
NPowI(u, k) == IF k = 0 THEN N1 ELSE NMul(u, NPowI(u, k - 1))
(* the variable measured in units of u: p(u s), monic when p is *)
PUnit(p, u) == IF Len(p) <= 1 THEN p ELSE SEval([i \in 1..Len(p) |-> NDiv(p[i], NPowI(u, i - 1))])
LcmAll(ps) == SeqFold(LAMBDA p, q : IF p = <<>> THEN q ELSE PLcm(p, q), <<N1>>, ps)
Companion(p) ==      \* of a monic polynomial of degree n >= 1
  LET n == Len(p) - 1
  IN MEval([r |-> n, c |-> n, e |-> [i \in 1..n |-> [j \in 1..n |->
        IF i < n THEN (IF j = i + 1 THEN N1 ELSE N0) ELSE NNeg(p[n + 2 - j])]]])
=============================================================================
