------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* State feedback design: what a solution is.                              *)
(***************************************************************************)
EXTENDS Norms
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* weights on [y; u] seen from [x; u] *)
Pulled(R, Q, S, W) ==
  LET n == R.a.r
      m == R.b.c
      L == MVcat(MHcat(R.c, R.d), MHcat(MZero(m, n), MEye(m)))
      F == MVcat(MHcat(Q, S), MHcat(MTrans(S), W))
      P == MMul(MMul(MTrans(L), F), L)
      x == Range1(n)
      u == SEval([j \in 1..m |-> n + j])
  IN [Q |-> MSel(P, x, x), S |-> MSel(P, x, u), W |-> MSel(P, u, u)]
(* residual of the Riccati equation with weights w = [Q, S, W] *)
Riccati(R, dt, w, X) ==
  LET A == R.a
      B == R.b
      At1 == MTrans(A)
  IN IF dt = "null"
     THEN LET L == MAdd(MMul(X, B), w.S)
          IN MSub(MAdd(MAdd(MMul(At1, X), MMul(X, A)), w.Q), MMul(L, MSolve(w.W, MTrans(L))[1]))
     ELSE LET L == MAdd(MMul(MMul(At1, X), B), w.S)
              V == MAdd(w.W, MMul(MMul(MTrans(B), X), B))
          IN MSub(MAdd(MSub(MMul(MMul(At1, X), A), X), w.Q), MMul(L, MSolve(V, MTrans(L))[1]))
(* the gain that belongs to X: residual of its defining equation *)
GainRes(R, dt, w, X, K) ==
  IF dt = "null" THEN MSub(MMul(w.W, K), MAdd(MMul(MTrans(R.b), X), MTrans(w.S)))
  ELSE MSub(MMul(MAdd(w.W, MMul(MMul(MTrans(R.b), X), R.b)), K), MAdd(MMul(MMul(MTrans(R.b), X), R.a), MTrans(w.S)))
Closed(A, B, K) == MSub(A, MMul(B, K))
(* es are the eigenvalues of M *)
EigsAre(M, es, tol) == Len(es) = M.r /\ CloseP(PFromRoots(es), MCharPoly(M), tol)
Inside(dt, p) == IF dt = "null" THEN NSign(NRe(p)) = -1 ELSE NLt(NAbs2(p), N1)
Krylov(A, B) == LET RECURSIVE go(_)
                    go(k) == IF k = 1 THEN B ELSE MHcat(go(k - 1), MMul(MPow(A, k - 1), B))
                IN go(A.r)
(* X > 0: the characteristic polynomial alternates strictly *)
Definite(X) == LET c == MCharPoly(X) IN \A q \in DOMAIN c : NSign(c[q]) = IF q % 2 = 1 THEN 1 ELSE -1
(* reachable, with a margin that rounded data cannot imitate *)
Reach(A, B) == LET K == Krylov(A, B) IN Definite(MEval(MSub(MMul(K, MTrans(K)), MScale(NFrac(1, 1000), MEye(A.r)))))
(* the problem has exactly one stabilizing solution: the weights are definite, and every mode is
   moved by the input and seen by the cost *)
Solvable(R, on, Q, S, W) ==
  /\ Definite(MEval(MVcat(MHcat(Q, S), MHcat(MTrans(S), W))))
  /\ Reach(R.a, R.b)
  /\ on = "output" => Reach(MTrans(R.a), MTrans(R.c))
(* weights fit *)
Symmetric(X) == X.r = X.c /\ \A i \in 1..X.r, j \in 1..X.r : X.e[i][j] = X.e[j][i]
(* a list closed under conjugation, with multiplicity *)
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SelfConj(s) == \A q \in DOMAIN s : Count(s, s[q]) = Count(s, NConj(s[q]))
=============================================================================
