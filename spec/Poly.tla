-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials with exact coefficients: a sequence, highest power first,   *)
(* no leading zero; <<>> is the zero polynomial.  java/Poly.java overrides *)
(* the operators with the same computations.                               *)
(***************************************************************************)
EXTENDS Num
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RECURSIVE PTrim(_)
PTrim(p) == IF p = <<>> THEN p ELSE IF NIsZero(Head(p)) THEN PTrim(Tail(p)) ELSE p

PDeg(p) == Len(PTrim(p)) - 1

LOCAL Coef(p, k) == IF k <= Len(p) - 1 THEN p[Len(p) - k] ELSE N0  \* of x^k
LOCAL MaxI(a, b) == IF a < b THEN b ELSE a

PAdd(p, q) == LET n == MaxI(Len(p), Len(q)) IN
              PTrim([i \in 1..n |-> NAdd(Coef(p, n - i), Coef(q, n - i))])
PScale(k, p) == PTrim([i \in 1..Len(p) |-> NMul(k, p[i])])
PSub(p, q) == PAdd(p, PScale(NInt(-1), q))

RECURSIVE PMul(_, _)
PMul(p, q) ==
  IF p = <<>> \/ q = <<>> THEN <<>>
  ELSE PAdd(PScale(Head(p), q \o [i \in 1..(Len(p) - 1) |-> N0]), PMul(PTrim(Tail(p)), q))

(* <<quotient, remainder>>, q # <<>> *)
RECURSIVE PolyDM(_, _, _)
PolyDM(quo, r, q) ==
  IF Len(r) < Len(q) THEN <<PTrim(quo), r>>
  ELSE LET k == NDiv(Head(r), Head(q))
           z == [i \in 1..(Len(r) - Len(q)) |-> N0]
       IN PolyDM(PAdd(quo, <<k>> \o z), PSub(r, PScale(k, q) \o z), q)
PDivMod(p, q) == PolyDM(<<>>, PTrim(p), PTrim(q))

PMonic(p) == IF p = <<>> THEN p ELSE PScale(NDiv(N1, Head(p)), p)

RECURSIVE PGcd(_, _)
PGcd(p, q) == IF q = <<>> THEN PMonic(p) ELSE PGcd(q, PDivMod(p, q)[2])

RECURSIVE PEval(_, _)
PEval(p, x) == IF p = <<>> THEN N0
               ELSE NAdd(NMul(PEval(SubSeq(p, 1, Len(p) - 1), x), x), p[Len(p)])

RECURSIVE PFromRoots(_)
PFromRoots(rs) == IF rs = <<>> THEN <<N1>>
                  ELSE PMul(<<N1, NNeg(Head(rs))>>, PFromRoots(Tail(rs)))

RECURSIVE PNorm(_)                    \* largest coefficient, |re| + |im|
PNorm(p) == IF p = <<>> THEN N0 ELSE NMax(NMag(Head(p)), PNorm(Tail(p)))

PIsNum(p) == \A i \in DOMAIN p : NIsNum(p[i])
PParse(p) == [i \in DOMAIN p |-> NParse(p[i])]

PDer(p) == LET n == Len(p) IN
  IF n <= 1 THEN <<>> ELSE PTrim([i \in 1..(n - 1) |-> NMul(NInt(n - i), p[i])])
(* some root has multiplicity three or more: numerically such roots are scattered by eps^(1/3) *)
PTriple(p) == Len(p) >= 4 /\ Len(PGcd(PGcd(p, PDer(p)), PDer(PDer(p)))) > 1

PLcm(p, q) == PMonic(PDivMod(PMul(p, q), PGcd(p, q))[1])
PDivides(p, q) == PDivMod(q, p)[2] = <<>>
(* largest difference of coefficients *)
PDist(p, q) == PNorm(PSub(p, q))
=============================================================================
