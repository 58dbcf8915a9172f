-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Matrices of exact numbers: [r |-> rows, c |-> columns, e |-> sequence   *)
(* of rows].  java/Mat.java overrides the operators with the same          *)
(* computations (elimination instead of the expansions written here).      *)
(***************************************************************************)
EXTENDS Num
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

MEval(A) == A      \* force evaluation (TLC is lazy in function bodies)
SEval(s) == s

LOCAL Mk(r, c, f(_, _)) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]]
RECURSIVE MatSum(_, _)
MatSum(f, n) == IF n = 0 THEN N0 ELSE NAdd(MatSum(f, n - 1), f[n])

MEye(n)     == Mk(n, n, LAMBDA i, j : IF i = j THEN N1 ELSE N0)
MZero(r, c) == Mk(r, c, LAMBDA i, j : N0)
MAdd(A, B)  == Mk(A.r, A.c, LAMBDA i, j : NAdd(A.e[i][j], B.e[i][j]))
MSub(A, B)  == Mk(A.r, A.c, LAMBDA i, j : NSub(A.e[i][j], B.e[i][j]))
MScale(k, A) == Mk(A.r, A.c, LAMBDA i, j : NMul(k, A.e[i][j]))
MHad(A, B)  == Mk(A.r, A.c, LAMBDA i, j : NMul(A.e[i][j], B.e[i][j]))
MMul(A, B)  == Mk(A.r, B.c, LAMBDA i, j : MatSum([k \in 1..A.c |-> NMul(A.e[i][k], B.e[k][j])], A.c))
MTrans(A)   == Mk(A.c, A.r, LAMBDA i, j : A.e[j][i])
MCTrans(A)  == Mk(A.c, A.r, LAMBDA i, j : NConj(A.e[j][i]))
MHcat(A, B) == Mk(A.r, A.c + B.c, LAMBDA i, j : IF j <= A.c THEN A.e[i][j] ELSE B.e[i][j - A.c])
MVcat(A, B) == Mk(A.r + B.r, A.c, LAMBDA i, j : IF i <= A.r THEN A.e[i][j] ELSE B.e[i - A.r][j])
MDiag(A, B) == MVcat(MHcat(A, MZero(A.r, B.c)), MHcat(MZero(B.r, A.c), B))
MSel(A, rs, cs) == Mk(Len(rs), Len(cs), LAMBDA i, j : A.e[rs[i]][cs[j]])
MKron(A, B) == Mk(A.r * B.r, A.c * B.c,
                  LAMBDA i, j : NMul(A.e[((i-1) \div B.r) + 1][((j-1) \div B.c) + 1],
                                     B.e[((i-1) % B.r) + 1][((j-1) % B.c) + 1]))
MRound(A, k) == Mk(A.r, A.c, LAMBDA i, j : NRound(A.e[i][j], k))

(* largest entry, |re| + |im| *)
MMax(A) == IF A.r = 0 \/ A.c = 0 THEN N0
           ELSE LET S == {NMag(A.e[i][j]) : i \in 1..A.r, j \in 1..A.c}
                IN CHOOSE x \in S : \A y \in S : NLe(y, x)

LOCAL Minor(A, i, j) ==
  LET d(n, k) == SelectSeq([q \in 1..n |-> q], LAMBDA q : q # k)
  IN MSel(A, d(A.r, i), d(A.c, j))

RECURSIVE MDet(_)
MDet(A) == IF A.r = 0 THEN N1
           ELSE MatSum([j \in 1..A.c |-> NMul(NInt(IF j % 2 = 1 THEN 1 ELSE -1),
                                           NMul(A.e[1][j], MDet(Minor(A, 1, j))))], A.c)

(* <<X>> with A X = B (Cramer), or <<>> when A is singular *)
MSolve(A, B) ==
  LET d == MDet(A)
      rep(k, q) == Mk(A.r, A.c, LAMBDA i, j : IF j = k THEN B.e[i][q] ELSE A.e[i][j])
  IN IF NIsZero(d) THEN <<>>
     ELSE << Mk(A.c, B.c, LAMBDA k, q : NDiv(MDet(rep(k, q)), d)) >>

LOCAL Incr(n, k) == {s \in [1..k -> 1..n] : \A i, j \in 1..k : i < j => s[i] < s[j]}
MRank(A) == LET ok(k) == \E rs \in Incr(A.r, k), cs \in Incr(A.c, k) : ~NIsZero(MDet(MSel(A, rs, cs)))
                m == IF A.r < A.c THEN A.r ELSE A.c
            IN CHOOSE k \in 0..m : ok(k) /\ \A q \in (k+1)..m : ~ok(q)

(* some matrix whose columns are a basis of the kernel *)
MKer(A) == CHOOSE K \in {} : K.r = A.c /\ K.c = A.c - MRank(A) /\ MMul(A, K) = MZero(A.r, K.c)

(* det(s I - A), highest power first (Faddeev-LeVerrier) *)
LOCAL Trace(A) == MatSum([i \in 1..A.r |-> A.e[i][i]], A.r)
RECURSIVE MatFL(_, _, _, _)
MatFL(A, M, k, p) ==
  IF k > A.r THEN p
  ELSE LET N == MAdd(MMul(A, M), MScale(p[Len(p)], MEye(A.r)))
       IN MatFL(A, N, k + 1, Append(p, NDiv(NNeg(Trace(MMul(A, N))), NInt(k))))
MCharPoly(A) == MatFL(A, MZero(A.r, A.r), 1, <<N1>>)

(* e^A to 2^-120 : the Taylor sum *)
RECURSIVE MatExpSum(_, _, _)
MatExpSum(A, T, k) ==
  IF k = 200 THEN T ELSE MAdd(T, MatExpSum(A, MScale(NFrac(1, k + 1), MMul(T, A)), k + 1))
MExp(A) == MatExpSum(A, MEye(A.r), 0)

(* value at s of the transfer matrix of (A,B,C,D): <<D + C(sI-A)^-1 B>>, or <<>> at an eigenvalue *)
SSAt(A, B, C, D, s) ==
  LET X == MSolve(MSub(MScale(s, MEye(A.r)), A), B)
  IN IF X = <<>> THEN <<>> ELSE << MAdd(D, MMul(C, X[1])) >>

MIsNum(A) == \A i \in 1..A.r, j \in 1..A.c : NIsNum(A.e[i][j])
MParse(A) == Mk(A.r, A.c, LAMBDA i, j : NParse(A.e[i][j]))
MStr(A)   == Mk(A.r, A.c, LAMBDA i, j : NStr(A.e[i][j]))

MNeg(A) == MScale(NInt(-1), A)
MShape(A) == <<A.r, A.c>>
MDist(A, B) == MMax(MSub(A, B))
MIsZero(A) == NIsZero(MMax(A))
MInv(A) == MSolve(A, MEye(A.r))
MOnes(r, c) == MEval([r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> N1]]])
Range1(n) == SEval([i \in 1..n |-> i])
MRows(A, rs) == MSel(A, rs, Range1(A.c))
MCols(A, cs) == MSel(A, Range1(A.r), cs)
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN MEye(A.r) ELSE MMul(A, MPow(A, k - 1))
=============================================================================
