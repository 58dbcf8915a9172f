------------------------------- MODULE Signals -------------------------------
(***************************************************************************)
(* Responses of models: over frequency and over time.                      *)
(***************************************************************************)
EXTENDS Discrete
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Tol9 == NFrac(1, 1000000000)
TwoPi == NMul(N2, Pi)

(* A state realization of any parsed model: the channels of a Transfer side by side *)
ChannelSS(Y, i, j) ==
  LET n == PTrim(Y.num[i][j])
      d == PTrim(Y.den[i][j])
  IN IF n = <<>> THEN [a |-> MZero(0, 0), b |-> MZero(0, 1), c |-> MZero(1, 0), d |-> MZero(1, 1)]
     ELSE IF Len(d) = 1 THEN [a |-> MZero(0, 0), b |-> MZero(0, 1), c |-> MZero(1, 0),
                              d |-> MEval([r |-> 1, c |-> 1, e |-> << << NDiv(n[1], d[1]) >> >>])]
     ELSE Companion(n, d)
RowSS(Y, i) ==          \* 1 x m
  LET RECURSIVE go(_)
      go(j) == IF j = 0 THEN [a |-> MZero(0, 0), b |-> MZero(0, 0), c |-> MZero(1, 0), d |-> MZero(1, 0)]
               ELSE LET g == go(j - 1)
                        h == ChannelSS(Y, i, j)
                    IN [a |-> MDiag(g.a, h.a), b |-> MDiag(g.b, h.b), c |-> MHcat(g.c, h.c), d |-> MHcat(g.d, h.d)]
  IN go(Y.m)
Realize(Y) ==
  IF Y.k = "S" THEN [a |-> Y.a, b |-> Y.b, c |-> Y.c, d |-> Y.d]
  ELSE LET RECURSIVE go(_)
           go(i) == IF i = 0 THEN [a |-> MZero(0, 0), b |-> MZero(0, Y.m), c |-> MZero(0, 0), d |-> MZero(0, Y.m)]
                    ELSE LET g == go(i - 1)
                             h == RowSS(Y, i)
                         IN [a |-> MDiag(g.a, h.a), b |-> MVcat(g.b, h.b), c |-> MDiag(g.c, h.c), d |-> MVcat(g.d, h.d)]
       IN go(Y.p)

----------------------------------------------------------------------------
(* Frequency response *)
ToRad(x, unit) == IF unit = "Hz" THEN NMul(TwoPi, x) ELSE x
FromRad(x, unit) == IF unit = "Hz" THEN NDiv(x, TwoPi) ELSE x
(* the point of the axis / the circle *)
OnAxis(w, dt) == IF dt = "null" THEN NCplx(N0, w) ELSE NRound(NExp(NCplx(N0, NMul(w, NParse(dt)))), 150)
NyqRad(dt) == NDiv(Pi, NParse(dt))
(* kept frequencies of a discrete model: not above the Nyquist frequency; very near to it is left open,
   but the Nyquist frequency itself, which only a request in Hz can hit, is kept *)
Above(w, dt) == dt # "null" /\ NLt(NMul(NyqRad(dt), NAdd(N1, Tol9)), w)
Near(w, dt) == dt # "null" /\ w # NyqRad(dt) /\ ~Above(w, dt) /\ NLt(NMul(NyqRad(dt), NSub(N1, Tol9)), w)
(* requested frequencies (rad/s) that have to be answered, in order *)
Kept(ws, dt) == SelectSeq(ws, LAMBDA w : ~Above(w, dt))

(* Value at s, and whether floating point can be expected to get it: no mode, visible or not, very near *)
Sharp == NInt(10000)
WellAt(Y, s) ==
  LET v == At(Y, s)
  IN /\ v # <<>>
     /\ NLe(MMax(v[1]), Sharp)
     /\ (Y.k = "S" /\ Y.n > 0) => LET i == MInv(MSub(MScale(s, MEye(Y.n)), Y.a)) IN i # <<>> /\ NLe(MMax(i[1]), Sharp)

(* A grid chosen by the library *)
GridOK(ws, dt) ==       \* ws in rad/s
  /\ Len(ws) >= 1
  /\ \A q \in DOMAIN ws : NLe(N0, ws[q])
  /\ \A q \in 1..(Len(ws) - 1) : NLe(ws[q], ws[q + 1])
  /\ dt # "null" => NLe(ws[Len(ws)], NMul(NyqRad(dt), NAdd(N1, Tol9)))

----------------------------------------------------------------------------
(* Simulation.  F, G: state update; us: sequence of inputs (m x 1 matrices); the outputs in order. *)
Trunc(X) == MRound(X, 160)
RECURSIVE Evolve(_, _, _, _, _, _)
Evolve(F, G, C, D, x, us) ==
  IF us = <<>> THEN <<>>
  ELSE << MAdd(MMul(C, x), MMul(D, Head(us))) >> \o
       Evolve(F, G, C, D, Trunc(MAdd(MMul(F, x), MMul(G, Head(us)))), Tail(us))
(* Discrete: the recursion itself.  Continuous: inputs held over each interval of length h. *)
Update(R, dt, h) ==
  IF R.a.r = 0 \/ dt # "null" THEN [F |-> R.a, G |-> R.b]
  ELSE LET q == Hold(R.a, R.b, h) IN [F |-> q.phi, G |-> q.g1]
Simulate(R, dt, h, us, x0) ==
  LET up == Update(R, dt, h) IN Evolve(up.F, up.G, R.c, R.d, x0, us)
(* only input j acting *)
Only(us, j) == SEval([q \in DOMAIN us |-> MEval([r |-> us[q].r, c |-> 1,
                 e |-> [i \in 1..us[q].r |-> << IF i = j THEN us[q].e[i][1] ELSE N0 >>]])])
Const(m, v) == MEval([r |-> m, c |-> 1, e |-> [i \in 1..m |-> <<v>>]])
StepInput(m, n) == SEval([q \in 1..n |-> Const(m, N1)])
(* a pulse of one sample with unit area *)
PulseInput(m, n, h) == SEval([q \in 1..n |-> Const(m, IF q = 1 THEN NDiv(N1, h) ELSE N0)])

(* time vectors: evenly spaced beyond doubt / unevenly beyond doubt *)
Gaps(t) == SEval([q \in 1..(Len(t) - 1) |-> NSub(t[q + 1], t[q])])
Even(t) == LET g == Gaps(t) IN
  Len(t) >= 2 /\ NLt(N0, g[1]) /\ \A q \in DOMAIN g : NLe(NMag(NSub(g[q], g[1])), NMul(Tol6, g[1]))
Uneven(t) == LET g == Gaps(t) IN
  Len(t) >= 2 /\ (NLe(g[1], N0) \/ \E q \in DOMAIN g : NLt(NMul(Tol4, NMag(g[1])), NMag(NSub(g[q], g[1]))) /\ NLt(Tol5, NMag(NSub(g[q], g[1]))))
SamePeriod(h, dt) == NLe(NMag(NSub(h, NParse(dt))), NMul(Tol6, NParse(dt)))
OtherPeriod(h, dt) == NLt(NMul(Tol4, NParse(dt)), NMag(NSub(h, NParse(dt)))) /\ NLt(Tol5, NMag(NSub(h, NParse(dt))))

(* decay of a mode over a horizon: |p|^k, or e^(p t) *)
RECURSIVE PowMag(_, _)
PowMag(x, k) == IF k = 0 THEN N1
                ELSE IF k % 2 = 1 THEN NRound(NMul(x, PowMag(x, k - 1)), 200)
                ELSE LET y == PowMag(x, k \div 2) IN NRound(NMul(y, y), 200)
Settled == NFrac(1, 50)
=============================================================================
