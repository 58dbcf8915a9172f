-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers.  A number is <<a, b, d>>, standing for (a + b i)/d, in   *)
(* lowest terms with d > 0: a Gaussian rational.  Every float is such a    *)
(* number exactly, so a recorded value is compared without rounding.       *)
(*                                                                         *)
(* TLC has 32-bit integers only; java/Num.java overrides each operator     *)
(* below by the same computation on unbounded integers.  Spec text never   *)
(* looks inside a number, it only uses these operators.                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE NumGcd(_, _)
NumGcd(a, b) == IF b = 0 THEN Abs(a) ELSE NumGcd(b, a % b)

LOCAL Mk(a, b, d) ==                 \* d # 0
  LET s == IF d < 0 THEN -1 ELSE 1
      g == NumGcd(NumGcd(Abs(a), Abs(b)), Abs(d))
  IN << s * (a \div g), s * (b \div g), Abs(d) \div g >>

NInt(k)     == <<k, 0, 1>>
NFrac(p, q) == Mk(p, 0, q)
NAdd(x, y)  == Mk(x[1]*y[3] + y[1]*x[3], x[2]*y[3] + y[2]*x[3], x[3]*y[3])
NNeg(x)     == <<-x[1], -x[2], x[3]>>
NSub(x, y)  == NAdd(x, NNeg(y))
NMul(x, y)  == Mk(x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1], x[3]*y[3])
LOCAL Inv(x) == Mk(x[1]*x[3], -x[2]*x[3], x[1]*x[1] + x[2]*x[2])
NDiv(x, y)  == NMul(x, Inv(y))       \* y # 0
NCplx(x, y) == NAdd(x, NMul(y, <<0, 1, 1>>))
NConj(x)    == <<x[1], -x[2], x[3]>>
NRe(x)      == Mk(x[1], 0, x[3])
NIm(x)      == Mk(x[2], 0, x[3])
NAbs2(x)    == NMul(x, NConj(x))
NMag(x)     == Mk(Abs(x[1]) + Abs(x[2]), 0, x[3])   \* |re| + |im|
NIsZero(x)  == x[1] = 0 /\ x[2] = 0
NIsReal(x)  == x[2] = 0
(* order is only defined on reals *)
NSign(x)    == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
NLt(x, y)   == x[1]*y[3] < y[1]*x[3]
NLe(x, y)   == x[1]*y[3] <= y[1]*x[3]

(* nearest multiple of 2^-k *)
NRound(x, k) ==
  LET r(n) == (2 * n * 2^k + x[3]) \div (2 * x[3])
  IN Mk(r(x[1]), r(x[2]), 2^k)

(* a non-negative number whose square is within 2^-150 below x >= 0 *)
NSqrt(x) == CHOOSE y \in {} : TRUE

(* e^x to 2^-150 : the Taylor sum *)
RECURSIVE NumExpSum(_, _, _)
NumExpSum(x, t, k) ==
  IF k = 200 THEN t ELSE NAdd(t, NumExpSum(x, NDiv(NMul(t, x), NInt(k + 1)), k + 1))
NExp(x) == NumExpSum(x, NInt(1), 0)

(* Text forms used in recorded traces: "n", "n/d", "mpe" for m * 2^e, and   *)
(* "re;im".  NIsNum is false of "nan", "inf", "-inf" and anything else.     *)
NIsNum(s) == FALSE
NParse(s) == CHOOSE x \in {} : TRUE
NStr(x)   == ""

N0 == NInt(0)
N1 == NInt(1)
N2 == NInt(2)
NMax(x, y) == IF NLe(x, y) THEN y ELSE x
=============================================================================
