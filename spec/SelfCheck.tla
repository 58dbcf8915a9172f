----------------------------- MODULE SelfCheck -----------------------------
(***************************************************************************)
(* The Java overrides compute what the TLA+ text says.  RefNum, RefMat and *)
(* RefPoly are the texts of Num, Mat and Poly under other names (written   *)
(* by setup.sh), so that TLC evaluates the definitions themselves; every   *)
(* operator is applied both ways to all small arguments and the results    *)
(* compared.  Operators the text cannot compute on 32-bit integers         *)
(* (exponentials, roots, kernels, texts) are checked by their laws.        *)
(***************************************************************************)
EXTENDS Mat, Poly, TLC
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
R == INSTANCE RefMat
Q == INSTANCE RefPoly

VARIABLES job
----------------------------------------------------------------------------
(* plain values <<a, b, d>> and their counterparts *)
Up(x) == NDiv(NCplx(NInt(x[1]), NInt(x[2])), NInt(x[3]))
UpS(s) == SEval([q \in DOMAIN s |-> Up(s[q])])
UpM(A) == MEval([r |-> A.r, c |-> A.c, e |-> [i \in 1..A.r |-> [j \in 1..A.c |-> Up(A.e[i][j])]]])
Plain == { R!NDiv(R!NCplx(R!NInt(a), R!NInt(b)), R!NInt(d)) : a \in {-3, -1, 0, 2, 5}, b \in {-2, 0, 1}, d \in {1, 2, 3, 8} }
Reals == { x \in Plain : x[2] = 0 }
Z(k) == <<k, 0, 1>>
(* polynomials and matrices over few values *)
Few == { Z(-1), Z(0), Z(2), <<1, 0, 2>>, <<0, 1, 1>> }
Polys == { s \in UNION { [1..n -> Few] : n \in 0..3 } : s = <<>> \/ s[1] # Z(0) }
Raw == UNION { [1..n -> {Z(-1), Z(0), Z(1)}] : n \in 0..4 }
MatOf(r, c, s) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> s[(i - 1) * c + j]]]]
Mats(r, c, V) == { MatOf(r, c, s) : s \in [1..(r * c) -> V] }
Small == Mats(0, 0, Few) \cup Mats(1, 1, Few) \cup Mats(2, 2, {Z(-1), Z(0), <<1, 0, 2>>, <<0, 1, 1>>}) \cup Mats(2, 1, Few) \cup Mats(1, 3, {Z(0), Z(2), <<0, 1, 1>>})
         \cup Mats(0, 2, Few) \cup Mats(2, 0, Few)
Square3 == { MatOf(3, 3, s) : s \in { [q \in 1..9 |-> Z(t[q])] : t \in { <<a, b, 0, 1, c, -1, d, 2, a>> : a \in -1..1, b \in -1..2, c \in -1..1, d \in 0..2 } } }

Init ==
  \/ \E x \in Plain, y \in Plain : job = [t |-> "num", x |-> x, y |-> y]
  \/ \E p \in Polys, q \in { s \in Polys : Len(s) <= 2 } \cup { <<Z(2), Z(0), Z(-1)>>, <<Z(-1), <<1, 0, 2>>, Z(2)>> } : job = [t |-> "poly", x |-> p, y |-> q]
  \/ \E p \in Raw : job = [t |-> "raw", x |-> p]
  \/ \E A \in Small \cup Square3 : job = [t |-> "mat", x |-> A]
  \/ \E A \in Mats(2, 2, {Z(-1), Z(0), Z(2)}), B \in Mats(2, 2, {Z(0), <<1, 0, 2>>, <<0, 1, 1>>}) \cup Mats(2, 1, Few) : job = [t |-> "two", x |-> A, y |-> B]
  \/ \E x \in Reals : job = [t |-> "law", x |-> x]
Next == UNCHANGED job
----------------------------------------------------------------------------
Eps == NFrac(1, 1073741824)
Tiny == NMul(Eps, NMul(Eps, NMul(Eps, Eps)))      \* 2^-120
CloseTo(a, b) == NLe(NMag(NSub(a, b)), Tiny)
MCloseTo(A, B) == NLe(MMax(MSub(A, B)), Tiny)

NumOK(x, y) ==
  LET u == Up(x)
      v == Up(y)
  IN /\ NAdd(u, v) = Up(R!NAdd(x, y)) /\ NSub(u, v) = Up(R!NSub(x, y)) /\ NMul(u, v) = Up(R!NMul(x, y))
     /\ (~R!NIsZero(y) => NDiv(u, v) = Up(R!NDiv(x, y)))
     /\ NNeg(u) = Up(R!NNeg(x)) /\ NConj(u) = Up(R!NConj(x)) /\ NRe(u) = Up(R!NRe(x)) /\ NIm(u) = Up(R!NIm(x))
     /\ NAbs2(u) = Up(R!NAbs2(x)) /\ NMag(u) = Up(R!NMag(x)) /\ NIsZero(u) = R!NIsZero(x) /\ NIsReal(u) = R!NIsReal(x)
     /\ (x[2] = 0 /\ y[2] = 0 => /\ NLt(u, v) = R!NLt(x, y) /\ NLe(u, v) = R!NLe(x, y) /\ NSign(u) = R!NSign(x)
                                 /\ NMax(u, v) = Up(R!NMax(x, y)) /\ NCplx(u, v) = Up(R!NCplx(x, y)))
     /\ (u = v) = (x = y)
     /\ \A k \in {0, 1, 3} : NRound(u, k) = Up(R!NRound(x, k))
     /\ NParse(NStr(u)) = u /\ NIsNum(NStr(u))
PolyOK(p, q) ==
  LET u == UpS(p)
      v == UpS(q)
  IN /\ PAdd(u, v) = UpS(Q!PAdd(p, q)) /\ PSub(u, v) = UpS(Q!PSub(p, q)) /\ PMul(u, v) = UpS(Q!PMul(p, q))
     /\ PMonic(u) = UpS(Q!PMonic(p)) /\ PNorm(u) = Up(Q!PNorm(p)) /\ PDeg(u) = Q!PDeg(p) /\ PDer(u) = UpS(Q!PDer(p))
     /\ (q # <<>> => LET a == PDivMod(u, v)
                         b == Q!PDivMod(p, q)
                     IN a[1] = UpS(b[1]) /\ a[2] = UpS(b[2]) /\ PAdd(PMul(a[1], v), a[2]) = u)
     /\ PGcd(u, v) = UpS(Q!PGcd(p, q))
     /\ \A x \in {Z(-1), <<1, 0, 2>>, <<0, 1, 1>>} : PEval(u, Up(x)) = Up(Q!PEval(p, x)) /\ PScale(Up(x), u) = UpS(Q!PScale(x, p))
     /\ PFromRoots(u) = UpS(Q!PFromRoots(p))
     /\ LET s == SEval([i \in DOMAIN u |-> NStr(u[i])]) IN PIsNum(s) /\ PParse(s) = u /\ ~PIsNum(Append(s, "nan")) /\ ~PIsNum(<<"inf">> \o s)
RawOK(p) == PTrim(UpS(p)) = UpS(Q!PTrim(p)) /\ PDeg(UpS(p)) = Q!PDeg(p)
MatOK(A) ==
  LET u == UpM(A)
      k == <<1, 1, 2>>
      K == MKer(u)
  IN /\ MTrans(u) = UpM(R!MTrans(A)) /\ MCTrans(u) = UpM(R!MCTrans(A)) /\ MScale(Up(k), u) = UpM(R!MScale(k, A))
     /\ MMax(u) = Up(R!MMax(A)) /\ MRank(u) = R!MRank(A) /\ MRound(u, 1) = UpM(R!MRound(A, 1))
     /\ MHcat(u, u) = UpM(R!MHcat(A, A)) /\ MVcat(u, u) = UpM(R!MVcat(A, A)) /\ MDiag(u, u) = UpM(R!MDiag(A, A))
     /\ MHad(u, u) = UpM(R!MHad(A, A)) /\ MAdd(u, u) = UpM(R!MAdd(A, A)) /\ MSub(u, u) = UpM(R!MZero(A.r, A.c))
     /\ MMul(u, MTrans(u)) = UpM(R!MMul(A, R!MTrans(A)))
     /\ (A.r >= 1 /\ A.c >= 1 => MSel(u, <<A.r, 1>>, <<1, A.c, A.c>>) = UpM(R!MSel(A, <<A.r, 1>>, <<1, A.c, A.c>>)))
     /\ MEye(A.r) = UpM(R!MEye(A.r)) /\ MZero(A.r, A.c) = UpM(R!MZero(A.r, A.c))
     /\ K.r = A.c /\ K.c = A.c - MRank(u) /\ MIsZero(MMul(u, K)) /\ MRank(K) = K.c
     /\ MParse(MStr(u)) = u /\ MIsNum(MStr(u))
     /\ (A.r = A.c => /\ MDet(u) = Up(R!MDet(A)) /\ MCharPoly(u) = UpS(R!MCharPoly(A))
                      /\ MCloseTo(MMul(MExp(u), MExp(MScale(NInt(-1), u))), MEye(A.r))
                      /\ MCloseTo(MExp(MAdd(u, u)), MMul(MExp(u), MExp(u)))
                      /\ MCloseTo(MMul(MExp(u), u), MMul(u, MExp(u)))
                      /\ (A.r = 1 => MCloseTo(MExp(u), MScale(NExp(u.e[1][1]), MEye(1))))
                      /\ (R!MMul(A, A) = R!MZero(A.r, A.r) => MCloseTo(MExp(u), MAdd(MEye(A.r), u))))
TwoOK(A, B) ==
  LET u == UpM(A)
      v == UpM(B)
      x == MSolve(u, v)
      w == R!MSolve(A, B)
      D == R!MZero(2, B.c)
      s == <<1, 1, 1>>
      y == SSAt(u, v, MEye(2), UpM(D), Up(s))
      z == R!SSAt(A, B, R!MEye(2), D, s)
  IN /\ MMul(u, v) = UpM(R!MMul(A, B)) /\ MKron(u, v) = UpM(R!MKron(A, B))
     /\ (B.c = 2 => MAdd(u, v) = UpM(R!MAdd(A, B)) /\ MSub(u, v) = UpM(R!MSub(A, B)) /\ MHad(u, v) = UpM(R!MHad(A, B)))
     /\ MHcat(u, v) = UpM(R!MHcat(A, B)) /\ MDiag(u, v) = UpM(R!MDiag(A, B))
     /\ Len(x) = Len(w) /\ (x # <<>> => x[1] = UpM(w[1]))
     /\ Len(y) = Len(z) /\ (y # <<>> => y[1] = UpM(z[1]))
LawOK(x) ==
  LET u == Up(x)
      e == NExp(u)
      r == NSqrt(NMul(u, u))
      q == NSqrt(NMag(u))
  IN /\ CloseTo(NExp(NAdd(u, u)), NMul(e, e)) /\ CloseTo(NMul(e, NExp(NNeg(u))), N1)
     /\ CloseTo(NMul(NExp(NCplx(N0, u)), NExp(NCplx(N0, NNeg(u)))), N1) /\ NLt(N0, e)
     /\ NLt(NAdd(N1, u), e) = ~NIsZero(u)
     /\ CloseTo(r, NMag(u)) /\ NLe(N0, q) /\ CloseTo(NMul(q, q), NMag(u))
TextOK(u) ==
  /\ NParse("3") = NInt(3) /\ NParse("-3p-1") = NFrac(-3, 2) /\ NParse("3p4") = NInt(48) /\ NParse("1;2") = NCplx(NInt(1), NInt(2))
  /\ NParse("0;-1p-2") = NCplx(N0, NFrac(-1, 4)) /\ NParse("7/3") = NFrac(7, 3)
  /\ \A s \in {"nan", "inf", "-inf", "", "1;nan", "x"} : ~NIsNum(s)

Agree ==
  CASE job.t = "num" -> NumOK(job.x, job.y)
    [] job.t = "poly" -> PolyOK(job.x, job.y)
    [] job.t = "raw" -> RawOK(job.x)
    [] job.t = "mat" -> MatOK(job.x)
    [] job.t = "two" -> TwoOK(job.x, job.y)
    [] job.t = "law" -> LawOK(job.x) /\ TextOK(0)
=============================================================================
