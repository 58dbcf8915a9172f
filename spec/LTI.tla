-------------------------------- MODULE LTI --------------------------------
(***************************************************************************)
(* What a model *is*, independently of how it is stored.                   *)
(*                                                                         *)
(* A recorded model is a record                                            *)
(*   [k |-> "S", p, m, n, dt, a, b, c, d, ...]      state representation   *)
(*   [k |-> "T", p, m, dt, num, den, ...]           transfer representation*)
(* and a recorded plain operand is                                         *)
(*   [k |-> "A", nd |-> 0 | 1 | 2, p, m, v]         number / 1-D / 2-D array*)
(* with every number in text form (module Num).  dt is "null" for          *)
(* continuous time.  The meaning of a model is its transfer matrix, a      *)
(* function of a complex point; two models are the same system iff these   *)
(* functions agree, which is decided at sample points outside the region   *)
(* where the generated models have poles.                                  *)
(***************************************************************************)
EXTENDS Mat, Poly
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

IsModel(X) == X.k \in {"S", "T"}
IsArr(X)   == X.k = "A"

(* every number of the record is finite *)
NumericOK(X) ==
  CASE X.k = "S" -> MIsNum(X.a) /\ MIsNum(X.b) /\ MIsNum(X.c) /\ MIsNum(X.d)
    [] X.k = "T" -> \A i \in 1..X.p, j \in 1..X.m : PIsNum(X.num[i][j]) /\ PIsNum(X.den[i][j])
    [] X.k = "A" -> MIsNum(X.v)

(* internal shapes agree with the declared shape *)
ShapeOK(X) ==
  CASE X.k = "S" -> /\ X.a.r = X.a.c /\ X.a.r = X.n
                    /\ X.d.r = X.p /\ X.d.c = X.m
                    /\ X.n > 0 => /\ X.b.r = X.n /\ X.b.c = X.m
                                  /\ X.c.r = X.p /\ X.c.c = X.n
    [] X.k = "T" -> /\ Len(X.num) = X.p /\ Len(X.den) = X.p
                    /\ \A i \in 1..X.p : Len(X.num[i]) = X.m /\ Len(X.den[i]) = X.m
                    /\ \A i \in 1..X.p, j \in 1..X.m : Len(X.num[i][j]) > 0 /\ Len(X.den[i][j]) > 0
    [] X.k = "A" -> X.v.r = X.p /\ X.v.c = X.m

PolyMat(q) == SEval([i \in DOMAIN q |-> SEval([j \in DOMAIN q[i] |-> PParse(q[i][j])])])

(* the same record with numbers instead of texts *)
Parsed(X) ==
  CASE X.k = "S" -> [k |-> "S", p |-> X.p, m |-> X.m, n |-> X.n,
                     a |-> MParse(X.a),
                     b |-> IF X.n = 0 THEN MZero(0, X.m) ELSE MParse(X.b),
                     c |-> IF X.n = 0 THEN MZero(X.p, 0) ELSE MParse(X.c),
                     d |-> MParse(X.d)]
    [] X.k = "T" -> [k |-> "T", p |-> X.p, m |-> X.m,
                     num |-> PolyMat(X.num), den |-> PolyMat(X.den)]
    [] X.k = "A" -> [k |-> "A", p |-> X.p, m |-> X.m, v |-> MParse(X.v)]

(* transfer matrix of a parsed record at the point s: <<M>>, or <<>> at a pole *)
At(Y, s) ==
  CASE Y.k = "S" -> SSAt(Y.a, Y.b, Y.c, Y.d, s)
    [] Y.k = "T" ->
         IF \E i \in 1..Y.p, j \in 1..Y.m : NIsZero(PEval(Y.den[i][j], s)) THEN <<>>
         ELSE << MEval([r |-> Y.p, c |-> Y.m,
                        e |-> [i \in 1..Y.p |-> [j \in 1..Y.m |->
                               NDiv(PEval(Y.num[i][j], s), PEval(Y.den[i][j], s))]]]) >>
    [] Y.k = "A" -> << Y.v >>

(* sample points; the concrete models drawn by the harness have their poles inside |s| < 4.5 *)
Samples == << NFrac(27, 5), NFrac(-23, 4), NCplx(NFrac(7, 2), NInt(5)), NCplx(NFrac(-9, 2), NFrac(11, 2)) >>

Huge == NInt(100000)
Tol6 == NFrac(1, 1000000)
Tol5 == NFrac(1, 100000)
Tol4 == NFrac(1, 10000)

(* |X - E| <= tol * (1 + |E|), entrywise maximum *)
CloseM(X, E, tol) == /\ X.r = E.r /\ X.c = E.c
                     /\ NLe(MDist(X, E), NMul(tol, NAdd(N1, MMax(E))))
CloseN(x, e, tol) == NLe(NMag(NSub(x, e)), NMul(tol, NAdd(N1, NMag(e))))
CloseP(p, q, tol) == NLe(PDist(p, q), NMul(tol, NAdd(N1, PNorm(q))))

(* Values at the sample points: a sequence of <<M>> / <<>> *)
NS == 1..4
AtSamples(Y) == SEval([i \in NS |-> At(Y, Samples[i])])

(* es: expected values at the sample points.  A point where the expected value is
   undefined or huge says nothing; at least two must remain for a verdict. *)
Usable(es) == { i \in NS : es[i] # <<>> /\ NLe(MMax(es[i][1]), Huge) }
Conclusive(es) == Cardinality(Usable(es)) >= 2

(* |X - E| <= tol * (f + |E|) at every usable point, f: size of the data the values were computed from, at most 1 *)
SameSystemF(ys, es, f, tol) ==
  \A i \in Usable(es) : /\ ys[i] # <<>>
                         /\ ys[i][1].r = es[i][1].r /\ ys[i][1].c = es[i][1].c
                         /\ NLe(MDist(ys[i][1], es[i][1]), NMul(tol, NAdd(f, MMax(es[i][1]))))
SameSystem(ys, es, tol) == SameSystemF(ys, es, N1, tol)

(* the largest of the numbers, at most 1 *)
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
Largest(f, S) == LET RECURSIVE G(_, _)
                     G(T, m) == IF T = {} THEN m
                                ELSE LET i == CHOOSE i \in T : TRUE
                                     IN G(T \ {i}, IF NLe(f[i], m) THEN m ELSE f[i])
                 IN G(S, NFrac(1, 1048576))
SizeOf(es) == NMin(N1, NMul(NInt(16), Largest(SEval([i \in NS |-> IF es[i] = <<>> THEN N0 ELSE MMax(es[i][1])]), Usable(es))))
=============================================================================
