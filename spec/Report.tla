------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* What a model tells about itself: natural frequency f and damping ratio  *)
(* d of a pole, static gains as arrays, and the printed description.       *)
(* f and d stand for the pole -d f +- j f sqrt(1 - d^2) of the continuous  *)
(* time mode; a discrete pole z belongs to the mode ln(z)/T of the         *)
(* principal strip.                                                        *)
(***************************************************************************)
EXTENDS Signals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* the modes described by f and d; |d| <= 1 up to rounding *)
ModeOf(f, d) ==
  LET r == NSub(N1, NMul(d, d))
      w == IF NLe(r, N0) THEN N0 ELSE NMul(f, NSqrt(r))
  IN NCplx(NNeg(NMul(d, f)), w)
(* its pole in the time domain dt, or the conjugate *)
PoleOf(s, dt) == IF dt = "null" THEN s ELSE NExp(NMul(s, NParse(dt)))
InStrip(s, dt) == dt = "null" \/ NLe(NMag(NIm(s)), NMul(NyqRad(dt), NAdd(N1, Tol6)))
(* f, d describe pole p.  sqrt(1 - d^2) loses half of the digits near d = 1: compare f and d f first. *)
Describes(f, d, p, dt, tol) ==
  LET s == ModeOf(f, d)
      q == PoleOf(s, dt)
  IN /\ NLe(N0, f) /\ InStrip(s, dt)
     /\ CloseN(q, p, tol) \/ CloseN(NConj(q), p, tol)
     /\ dt = "null" => CloseN(NMul(f, f), NAbs2(p), Tol9) /\ CloseN(NNeg(NMul(d, f)), NRe(p), Tol9)
     /\ dt # "null" => CloseN(NAbs2(NExp(NMul(NNeg(NMul(d, f)), NParse(dt)))), NAbs2(p), Tol6)
Integrator(p, dt) == p = IF dt = "null" THEN N0 ELSE N1
NearIntegrator(p, dt) == NLe(NMag(NSub(p, IF dt = "null" THEN N0 ELSE N1)), Tol6)
=============================================================================
