------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* A model as an object: its attributes can be assigned, and whatever it   *)
(* reports about itself (poles, zeros, stability, counts, time domain) is  *)
(* a function of its current data.                                         *)
(*                                                                         *)
(* A value offered to an attribute is recorded as                          *)
(*   [f |-> "mat", m]          number, flat list or array, matrix          *)
(*   [f |-> "polys", p, m, e]  p x m polynomials, coefficient texts        *)
(*   [f |-> "dt", v]           sampling period text, "null" for None       *)
(*   [f |-> "none"]            None for anything but the period            *)
(*   [f |-> "nan", m]          real data that are not finite               *)
(*   [f |-> "bad", why]        anything else                               *)
(* Assign says what has to happen:                                         *)
(*   how |-> "value"  taken, x is the data the model then has              *)
(*           "raise"  refused and the model is exactly as before           *)
(*           "either" one of the two                                       *)
(*           "free"   if taken, nothing is claimed                         *)
(***************************************************************************)
EXTENDS Linalg
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RECURSIVE TrimT(_)                    \* leading zeros of a coefficient text sequence
TrimT(q) == IF Len(q) <= 1 THEN q ELSE IF Head(q) = "0" THEN TrimT(Tail(q)) ELSE q
ZeroT(q) == \A i \in DOMAIN q : q[i] = "0"
Trimmed(q) == [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> TrimT(q[i][j])]]
ZerosT(r, c) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> "0"]]]
TransT(M) == [r |-> M.c, c |-> M.r, e |-> [i \in 1..M.c |-> [j \in 1..M.r |-> M.e[j][i]]]]

Refuse == [how |-> "raise"]
Take(x) == [how |-> "value", x |-> x]
MayTake(x) == [how |-> "either", x |-> x]

(* the matrix an attribute of a State becomes: <<M>> or <<>> *)
FitMat(X, attr, M) ==
  CASE attr = "a" -> IF X.n > 0 /\ M.r = X.n /\ M.c = X.n THEN <<M>> ELSE <<>>
    [] attr = "b" -> IF X.n = 0 THEN <<>>
                     ELSE IF M.r = X.n /\ M.c = X.m THEN <<M>>
                     ELSE IF M.r = 1 /\ M.c = X.n /\ X.m = 1 THEN <<TransT(M)>> ELSE <<>>
    [] attr = "c" -> IF X.n > 0 /\ M.r = X.p /\ M.c = X.n THEN <<M>> ELSE <<>>
    [] attr = "d" -> IF M.r = X.p /\ M.c = X.m THEN <<M>>
                     ELSE IF X.n > 0 /\ M.r = 1 /\ M.c = X.p /\ X.m = 1 THEN <<TransT(M)>> ELSE <<>>
PutMat(X, attr, M) ==
  CASE attr = "a" -> [X EXCEPT !.a = M]
    [] attr = "b" -> [X EXCEPT !.b = M]
    [] attr = "c" -> [X EXCEPT !.c = M]
    [] attr = "d" -> [X EXCEPT !.d = M]
AssignState(X, attr, v) ==
  CASE v.f = "mat" -> LET M == FitMat(X, attr, v.m)
                      IN IF M = <<>> THEN Refuse ELSE Take(PutMat(X, attr, M[1]))
    [] v.f = "none" -> IF attr = "d" /\ X.n > 0 THEN MayTake(PutMat(X, "d", ZerosT(X.p, X.m))) ELSE Refuse
    [] OTHER -> Refuse

(* numerators / denominators: one polynomial stands for all entries *)
SpreadT(X, v) == IF v.p = X.p /\ v.m = X.m THEN <<Trimmed(v.e)>>
                 ELSE IF v.p = 1 /\ v.m = 1
                 THEN <<[i \in 1..X.p |-> [j \in 1..X.m |-> TrimT(v.e[1][1])]]>> ELSE <<>>
ProperT(num, den) == \A i \in DOMAIN num : \A j \in DOMAIN num[i] :
                        /\ Len(num[i][j]) <= Len(den[i][j])
                        /\ ~ZeroT(den[i][j])
AllOnes(X) == [i \in 1..X.p |-> [j \in 1..X.m |-> <<"1">>]]
PutPoly(X, attr, q) == IF attr = "num" THEN [X EXCEPT !.num = q] ELSE [X EXCEPT !.den = q]
AssignTransfer(X, attr, v) ==
  LET q == CASE v.f = "polys" -> SpreadT(X, v)
             [] v.f = "none" -> <<AllOnes(X)>>
             [] OTHER -> <<>>
      Y == PutPoly(X, attr, q[1])
  IN IF q = <<>> THEN Refuse
     ELSE IF ~ProperT(Y.num, Y.den) THEN Refuse
     ELSE IF v.f = "none" THEN MayTake(Y) ELSE Take(Y)

Assign(X, attr, v) ==
  IF v.f = "nan" THEN [how |-> "free"]
  ELSE IF attr = "dt"
  THEN IF v.f # "dt" THEN Refuse
       ELSE IF v.v = "null" \/ (NIsNum(v.v) /\ NSign(NParse(v.v)) = 1 /\ NIsReal(NParse(v.v)))
       THEN Take([X EXCEPT !.dt = v.v]) ELSE Refuse
  ELSE IF X.k = "S" THEN AssignState(X, attr, v) ELSE AssignTransfer(X, attr, v)

SameData(X, Y) ==
  /\ X.k = Y.k /\ X.p = Y.p /\ X.m = Y.m /\ X.dt = Y.dt
  /\ IF X.k = "S" THEN X.n = Y.n /\ X.a = Y.a /\ X.b = Y.b /\ X.c = Y.c /\ X.d = Y.d
     ELSE X.num = Y.num /\ X.den = Y.den

----------------------------------------------------------------------------
(* Self-description of a recorded model G whose data parse to Y *)
IsStatic(G) == IF G.k = "S" THEN G.n = 0
               ELSE \A i \in 1..G.p, j \in 1..G.m : Len(G.den[i][j]) = 1
GainAt(G, Y, i, j) == IF G.k = "S" THEN Y.d.e[i][j] ELSE NDiv(Y.num[i][j][1], Y.den[i][j][1])

Counts(G) == /\ G.nin = G.m /\ G.nout = G.p
             /\ G.set = IF G.dt = "null" THEN "R" ELSE "Z"
             /\ G.k = "S" => G.nst = G.n
ToArray(G, Y) ==
  IF IsStatic(G)
  THEN /\ G.arr.t = "ok" /\ G.arr.m.r = G.p /\ G.arr.m.c = G.m /\ MIsNum(G.arr.m)
       /\ \A i \in 1..G.p, j \in 1..G.m : CloseN(NParse(G.arr.m.e[i][j]), GainAt(G, Y, i, j), Tol9)
  ELSE G.arr.t = "err"

(* q divides p up to rounding; q monic *)
AlmostDivides(q, p, tol) ==
  LET r == PDivMod(p, q)[2] IN NLe(PNorm(r), NMul(tol, NAdd(N1, PNorm(p))))
RECURSIVE ProdAll(_)
ProdAll(s) == IF s = <<>> THEN <<N1>> ELSE PMul(Head(s), ProdAll(Tail(s)))
Dens(Y) == SEval([q \in 1..(Y.p * Y.m) |-> PMonic(PTrim(Y.den[((q - 1) \div Y.m) + 1][((q - 1) % Y.m) + 1]))])
(* Poles of a MIMO Transfer belong to some realization: every entry times the pole polynomial
   is a polynomial, and only roots of the denominators occur. *)
PolesFit(Y, R) ==
  /\ \A i \in 1..Y.p, j \in 1..Y.m :
       LET f == EntryFrac(Y, i, j)
       IN Len(f[2]) > 1 => AlmostDivides(PMonic(f[2]), R, NFrac(1, 1000))
  /\ AlmostDivides(R, ProdAll(Dens(Y)), NFrac(1, 1000))

MimoT(Y) == Y.k = "T" /\ (Y.p > 1 \/ Y.m > 1)
PolesOK(G, Y, rs) ==
  CASE IsStatic(G) -> rs = <<>>
    [] Y.k = "S" -> RootsAre(rs, MCharPoly(Y.a), Tol5)
    [] MimoT(Y) -> PolesFit(Y, PFromRoots(rs))
    [] OTHER -> RootsAre(rs, PMonic(PTrim(Y.den[1][1])), Tol5)

(* zeros of a square MIMO Transfer: det G = k * zeros / poles, at the sample points *)
DetRatio(Y, ps, zs, s) ==
  LET g == At(Y, s)
      z == PEval(PFromRoots(zs), s)
  IN IF g = <<>> \/ NIsZero(z) THEN <<>>
     ELSE << NDiv(NMul(MDet(g[1]), PEval(PFromRoots(ps), s)), z) >>
SquareZeros(Y, ps, zs) ==
  LET v == SEval([i \in NS |-> DetRatio(Y, ps, zs, Samples[i])])
  IN \A i, j \in NS : v[i] # <<>> /\ v[j] # <<>> => CloseN(v[i][1], v[j][1], NFrac(1, 1000))
Regular(Y) == \E i \in NS : LET g == At(Y, Samples[i]) IN g # <<>> /\ ~NIsZero(MDet(g[1]))
ZerosOK(G, Y, ps, zs) ==
  CASE IsStatic(G) -> zs = <<>>
    [] Y.k = "S" -> LET zp == IF MIsZero(Y.b) \/ MIsZero(Y.c) THEN <<N1>> ELSE ZeroPoly(Y.a, Y.b, Y.c, Y.d)
                    IN Len(zs) = Len(zp) - 1 /\ RootsAre(zs, zp, IF PTriple(zp) THEN NFrac(1, 100) ELSE Tol4)
    [] MimoT(Y) -> (Y.p = Y.m /\ Regular(Y)) => SquareZeros(Y, ps, zs)
    [] OTHER -> LET n == PTrim(Y.num[1][1])
                IN IF Len(n) <= 1 THEN zs = <<>> ELSE RootsAre(zs, PMonic(n), Tol5)

(* stability of the reported poles; a pole too close to the unit circle to be decided after
   rounding gives no claim *)
Edge(dt, p) == dt # "null" /\ ~NIsReal(p) /\ NLe(NMag(NSub(NAbs2(p), N1)), NFrac(1, 1000000000))
InRegion(dt, p) == IF dt = "null" THEN NSign(NRe(p)) = -1 ELSE NLt(NAbs2(p), N1)
StabOK(G, ps) ==
  \/ G.stab = "unknown"
  \/ \E q \in DOMAIN ps : Edge(G.dt, ps[q])
  \/ (G.stab = "yes") = (\A q \in DOMAIN ps : InRegion(G.dt, ps[q]))

(* rows [pole, natural frequency, damping ratio] *)
Spot(dt) == IF dt = "null" THEN N0 ELSE N1
RowOK(dt, p, row) ==
  LET w == NParse(row[2])
      z == NParse(row[3])
      u == NSub(N1, NMul(z, z))
      im == NMul(w, NSqrt(IF NSign(u) = -1 THEN N0 ELSE u))
      s == NCplx(NNeg(NMul(w, z)), im)
      T == NParse(dt)
  IN IF p = Spot(dt) THEN row[2] = "0" /\ row[3] = "nan"
     ELSE IF dt # "null" /\ NLe(NMag(p), Tol6) THEN TRUE
     ELSE IF NLe(NMag(NSub(p, Spot(dt))), Tol6) THEN TRUE
     ELSE /\ NIsNum(row[2]) /\ NIsNum(row[3])
          /\ NSign(w) = 1 /\ NLe(NNeg(Tol9), u)
          /\ IF dt = "null" THEN CloseN(s, NCplx(NRe(p), IF NSign(NIm(p)) = -1 THEN NNeg(NIm(p)) ELSE NIm(p)), Tol6)
             ELSE /\ NLe(NMul(im, T), NFrac(31416, 10000))
                  /\ LET e == NExp(NMul(s, T)) IN CloseN(e, p, Tol6) \/ CloseN(NConj(e), p, Tol6)
PropsOK(G, ps) ==
  IF ps = <<>> THEN G.props.t = "none"
  ELSE /\ G.props.t = "rows" /\ Len(G.props.e) = Len(ps)
       /\ \A q \in DOMAIN ps : G.props.e[q][1] = G.poles[q] /\ RowOK(G.dt, ps[q], G.props.e[q])
=============================================================================
