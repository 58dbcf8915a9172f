-------------------------------- MODULE Norms --------------------------------
(***************************************************************************)
(* Stability, H2 and H-infinity norms of exact state data, decided exactly.*)
(***************************************************************************)
EXTENDS Signals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

(* Hurwitz' criterion on the characteristic polynomial (monic) *)
HurwitzMat(p) ==
  LET n == Len(p) - 1
      co(k) == IF k >= 0 /\ k <= n THEN p[k + 1] ELSE N0        \* of s^(n-k)
  IN MEval([r |-> n, c |-> n, e |-> [i \in 1..n |-> [j \in 1..n |-> co(2*j - i)]]])
Hurwitz(p) ==
  LET n == Len(p) - 1
      H == HurwitzMat(p)
  IN \A k \in 1..n : NSign(MDet(MSel(H, Range1(k), Range1(k)))) = 1
(* z = (1 + s)/(1 - s): the unit disc onto the left half plane, keeping the response values *)
Bilinear(R) ==
  LET n == R.a.r
      E == MInv(MAdd(R.a, MEye(n)))[1]
      w == MMul(E, R.b)
  IN [a |-> MMul(E, MSub(R.a, MEye(n))), b |-> MScale(N2, MMul(E, w)), c |-> R.c,
      d |-> MSub(R.d, MMul(R.c, w))]
StableSS(R, dt) ==
  IF R.a.r = 0 THEN TRUE
  ELSE IF dt = "null" THEN Hurwitz(MCharPoly(R.a))
  ELSE IF MInv(MAdd(R.a, MEye(R.a.r))) = <<>> THEN FALSE
  ELSE Hurwitz(MCharPoly(Bilinear(R).a))

----------------------------------------------------------------------------
(* H2: the squared norm from the controllability Gramian *)
Unvec(v, n) == MEval([r |-> n, c |-> n, e |-> [i \in 1..n |-> [j \in 1..n |-> v.e[(j - 1)*n + i][1]]]])
Vec(X) == MEval([r |-> X.r * X.c, c |-> 1, e |-> [q \in 1..(X.r * X.c) |-> << X.e[((q - 1) % X.r) + 1][((q - 1) \div X.r) + 1] >>]])
Gram(R, dt) ==
  LET n == R.a.r
      I == MEye(n)
      BB == MMul(R.b, MTrans(R.b))
      L == IF dt = "null" THEN MAdd(MKron(I, R.a), MKron(R.a, I)) ELSE MSub(MKron(R.a, R.a), MKron(I, I))
  IN Unvec(MSolve(L, MNeg(Vec(BB)))[1], n)
Trace(X) == LET RECURSIVE go(_)
                go(k) == IF k = 0 THEN N0 ELSE NAdd(go(k - 1), X.e[k][k])
            IN go(X.r)
H2Sq(R, dt) ==
  LET dd == MMul(R.d, MTrans(R.d))
  IN IF R.a.r = 0 THEN Trace(dd)
     ELSE NAdd(Trace(MMul(MMul(R.c, Gram(R, dt)), MTrans(R.c))), Trace(dd))

----------------------------------------------------------------------------
(* Real roots by Sturm's theorem *)
RECURSIVE SturmTail(_, _)
SturmTail(p, q) == IF q = <<>> THEN <<p>> ELSE <<p>> \o SturmTail(q, PScale(NInt(-1), PDivMod(p, q)[2]))
Sturm(p) == SturmTail(p, PDer(p))
RECURSIVE Changes(_)
Changes(s) == IF Len(s) < 2 THEN 0 ELSE (IF s[1] # s[2] THEN 1 ELSE 0) + Changes(Tail(s))
Signs(s) == SelectSeq(s, LAMBDA x : x # 0)
AtEnd(ch, where) ==
  Signs(SEval([q \in DOMAIN ch |-> IF where = "inf" THEN NSign(ch[q][1]) ELSE NSign(ch[q][Len(ch[q])])]))
(* a root x >= 0 *)
HasRoot0(p) ==
  LET q == PTrim(p)
  IN IF q = <<>> THEN TRUE
     ELSE IF NIsZero(q[Len(q)]) THEN TRUE
     ELSE IF Len(q) = 1 THEN FALSE
     ELSE LET ch == Sturm(q) IN Changes(AtEnd(ch, "0")) > Changes(AtEnd(ch, "inf"))
(* p(x + h) *)
RECURSIVE Shift(_, _)
Shift(p, h) == IF p = <<>> THEN <<>>
               ELSE LET n == Len(p) IN PAdd(PMul(Shift(SubSeq(p, 1, n - 1), h), <<N1, h>>), PTrim(<<p[n]>>))
(* largest singular value >= g *)
SigmaGe(D, g) == HasRoot0(Shift(MCharPoly(MMul(MTrans(D), D)), NMul(g, g)))

(* Bounded real: for g above the largest singular value of D, the response stays below g at every
   frequency iff the Hamiltonian has no purely imaginary eigenvalue.  Its characteristic polynomial is even. *)
Hamilton(R, g) ==
  LET gg == NMul(g, g)
      W == MInv(MSub(MScale(gg, MEye(R.d.c)), MMul(MTrans(R.d), R.d)))[1]
      F == MAdd(R.a, MMul(MMul(R.b, W), MMul(MTrans(R.d), R.c)))
      G == MMul(MMul(R.b, W), MTrans(R.b))
      Q == MAdd(MMul(MTrans(R.c), R.c), MMul(MMul(MMul(MTrans(R.c), R.d), W), MMul(MTrans(R.d), R.c)))
  IN MVcat(MHcat(F, G), MHcat(MNeg(Q), MNeg(MTrans(F))))
Even2(p) ==      \* p(s) with s^2 = -x
  LET n == (Len(p) - 1) \div 2
  IN SEval([q \in 1..(n + 1) |-> IF (n + 1 - q) % 2 = 0 THEN p[2*q - 1] ELSE NNeg(p[2*q - 1])])
(* the norm of a stable continuous R is at least g (g > 0) *)
HinfGe(R, g) == IF SigmaGe(R.d, g) THEN TRUE
                ELSE IF R.a.r = 0 THEN FALSE
                ELSE HasRoot0(Even2(MCharPoly(Hamilton(R, g))))
HinfIs(R0, dt, x) ==
  LET R == IF dt = "null" \/ R0.a.r = 0 THEN R0 ELSE Bilinear(R0)
      lo == NRound(NMul(x, NSub(N1, NFrac(1, 50000))), 50)
      hi == NRound(NMul(x, NAdd(N1, NFrac(1, 50000))), 50)
  IN IF NLe(x, Tol9) THEN ~HinfGe(R, NFrac(1, 100000000))
     ELSE HinfGe(R, lo) /\ ~HinfGe(R, hi)
=============================================================================
