------------------------------ MODULE Discrete ------------------------------
(***************************************************************************)
(* Going from continuous to discrete time and back.                        *)
(*                                                                         *)
(* Substitution rules.  A rule is the 2x2 matrix q of                      *)
(*     1/s = q22 + q12 q21 / (z - q11)                                     *)
(* of which only [a |-> q11, bc |-> q12 q21, d |-> q22] matters.           *)
(* Hold rules: what the sampled continuous model does to an input that is  *)
(* held constant (zoh) or interpolated linearly (foh) between samples.     *)
(***************************************************************************)
EXTENDS Models
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

TustinNames == {"tustin", "bilinear", "trapezoidal"}
ForwardNames == {"forward euler", "forward difference", "forward rectangular", ">>"}
BackwardNames == {"backward euler", "backward difference", "backward rectangular", "<<"}
Known == TustinNames \cup ForwardNames \cup BackwardNames \cup {"zoh", "foh", "lft"}
Family(name) == CASE name \in TustinNames -> "tustin"
                  [] name \in ForwardNames -> "forward"
                  [] name \in BackwardNames -> "backward"
                  [] name \in {"zoh", "foh", "lft"} -> name
                  [] OTHER -> "unknown"

(* pi to 2^-150 *)
Pi == NParse("4483830866258026290414848827874327273881010766p-150")

(* Prewarping at f (Hz) replaces the period by tan(pi f T)/(pi f): then e^(j 2 pi f T)
   corresponds to 2 pi f j exactly *)
WarpedPeriod(T, f) ==
  IF NIsZero(f) THEN T
  ELSE LET e == NExp(NCplx(N0, NMul(Pi, NMul(f, T))))
       IN NRound(NDiv(NDiv(NIm(e), NRe(e)), NMul(Pi, f)), 150)
Nyquist(T) == NDiv(N1, NMul(N2, T))
WarpOK(T, f) == NLe(N0, f) /\ NLt(f, Nyquist(T))

(* the rule of a family; T the period, f the prewarp frequency (0: none), Q the matrix of "lft" *)
Subst(fam, T, f, Q) ==
  CASE fam = "tustin"   -> LET w == WarpedPeriod(T, f) IN [a |-> N1, bc |-> w, d |-> NDiv(w, N2)]
    [] fam = "forward"  -> [a |-> N1, bc |-> T, d |-> N0]
    [] fam = "backward" -> [a |-> N1, bc |-> T, d |-> T]
    [] fam = "lft"      -> [a |-> Q.e[1][1], bc |-> NMul(Q.e[1][2], Q.e[2][1]), d |-> Q.e[2][2]]

(* the point s assigned to z, and the other way round: <<point>>, or <<>> for infinity *)
SOf(q, z) == LET w == NSub(z, q.a)
                 d == NAdd(NMul(q.d, w), q.bc)
             IN IF NIsZero(d) THEN <<>> ELSE << NDiv(w, d) >>
ZOf(q, s) == LET d == NSub(N1, NMul(q.d, s))
             IN IF NIsZero(d) THEN <<>> ELSE << NAdd(q.a, NDiv(NMul(q.bc, s), d)) >>

(* The discrete model is proper unless the continuous one has a pole at 1/q22 (z = infinity). *)
NotPole(Y, s) ==      \* not even a hidden one, and none very near
  LET v == IF Y.k = "S" THEN MInv(MSub(MScale(s, MEye(Y.n)), Y.a)) ELSE At(Y, s)
  IN v # <<>> /\ NLe(MMax(v[1]), Huge)
Proper(Y, q) == IF NIsZero(q.d) THEN TRUE ELSE NotPole(Y, NDiv(N1, q.d))
(* The continuous model recovered from a discrete one is proper unless the latter has a pole at
   the z of s = infinity.  (q.bc = q.a q.d: that point is z = 0.) *)
ZInf(q) == NSub(q.a, NDiv(q.bc, q.d))
ProperBack(Y, q) == IF NIsZero(q.d) THEN TRUE
                    ELSE NotPole(Y, ZInf(q))

----------------------------------------------------------------------------
(* Holds.  x' = A x + B u over one period, u(t) = u0 + t/T (u1 - u0):
     x(T) = Phi x(0) + G1 u0 + G2 (u1 - u0)                                  *)
Hold(A, B, T) ==
  LET n == A.r
      m == B.c
      M == MVcat(MHcat(MHcat(MScale(T, A), MScale(T, B)), MZero(n, m)),
                 MVcat(MHcat(MZero(m, n + m), MEye(m)), MZero(m, n + 2*m)))
      E == MExp(M)
      top == Range1(n)
  IN [phi |-> MSel(E, top, top),
      g1 |-> MSel(E, top, SEval([j \in 1..m |-> n + j])),
      g2 |-> MSel(E, top, SEval([j \in 1..m |-> n + m + j]))]
(* value at z of the held and sampled (A, B, C, D), h its Hold record *)
HoldAt(h, C, D, fam, z) ==
  SSAt(h.phi, IF fam = "zoh" THEN h.g1 ELSE MAdd(h.g1, MScale(NSub(z, N1), h.g2)), C, D, z)

(* controllable form of one proper fraction <<num, den>> *)
Companion(n, d) ==
  LET k == Len(d) - 1
      co(p, i) == IF i <= Len(p) - 1 THEN NDiv(p[Len(p) - i], d[1]) ELSE N0     \* of s^i, monic den
      h == co(n, k)
  IN [a |-> MEval([r |-> k, c |-> k, e |-> [i \in 1..k |-> [j \in 1..k |->
              IF i < k THEN (IF j = i + 1 THEN N1 ELSE N0) ELSE NNeg(co(d, j - 1))]]]),
      b |-> MEval([r |-> k, c |-> 1, e |-> [i \in 1..k |-> <<IF i = k THEN N1 ELSE N0>>]]),
      c |-> MEval([r |-> 1, c |-> k, e |-> <<[j \in 1..k |-> NSub(co(n, j - 1), NMul(h, co(d, j - 1)))]>>]),
      d |-> MEval([r |-> 1, c |-> 1, e |-> << <<h>> >>])]

(* expected values at the sample points of the held and sampled model Y *)
HoldSamples(Y, fam, T) ==
  IF Y.k = "S"
  THEN IF Y.n = 0 THEN AtSamples(Y)
       ELSE LET h == Hold(Y.a, Y.b, T)
            IN SEval([i \in NS |-> HoldAt(h, Y.c, Y.d, fam, Samples[i])])
  ELSE (* entry by entry: holding and sampling is linear *)
       LET entry(i, j) ==
             LET n == PTrim(Y.num[i][j])
                 d == PTrim(Y.den[i][j])
             IN IF n = <<>> THEN [q \in NS |-> << N0 >>]
                ELSE IF Len(d) = 1 THEN [q \in NS |-> << NDiv(n[1], d[1]) >>]
                ELSE LET r == Companion(n, d)
                         h == Hold(r.a, r.b, T)
                     IN [q \in NS |-> LET v == HoldAt(h, r.c, r.d, fam, Samples[q])
                                      IN IF v = <<>> THEN <<>> ELSE << v[1].e[1][1] >>]
           W == SEval([i \in 1..Y.p |-> SEval([j \in 1..Y.m |-> SEval(entry(i, j))])])
       IN SEval([q \in NS |->
            IF \E i \in 1..Y.p, j \in 1..Y.m : W[i][j][q] = <<>> THEN <<>>
            ELSE << MEval([r |-> Y.p, c |-> Y.m, e |-> [i \in 1..Y.p |-> [j \in 1..Y.m |-> W[i][j][q][1]]]]) >>])

(* expected values at the sample points of the discretized model Y *)
DiscSamples(Y, fam, T, f, Q) ==
  IF fam \in {"zoh", "foh"} THEN HoldSamples(Y, fam, T)
  ELSE LET q == Subst(fam, T, f, Q)
       IN SEval([i \in NS |-> LET s == SOf(q, Samples[i]) IN IF s = <<>> THEN <<>> ELSE At(Y, s[1])])
(* ... of the continuous model a substitution rule recovers from discrete Y *)
BackSamples(Y, q) ==
  SEval([i \in NS |-> LET z == ZOf(q, Samples[i]) IN IF z = <<>> THEN <<>> ELSE At(Y, z[1])])

----------------------------------------------------------------------------
(* Bookkeeping.  What a model shows: period, method, prewarp frequency, matrix.
   s = [dt, dw, frs, qs]: dt and dw as shown; frs / qs the values that may be shown while the
   method calls for a frequency / a matrix (a change of method may keep or drop them).     *)
NoQ == [r |-> 0, c |-> 0, e |-> <<>>]
Fresh(dt) == [dt |-> dt, dw |-> "null", frs |-> {"0"}, qs |-> {NoQ}]
Shows(v, s) ==
  /\ v.dt = s.dt
  /\ v.set = (IF s.dt = "null" THEN "R" ELSE "Z")
  /\ v.dw = s.dw
  /\ IF s.dw \in TustinNames THEN v.fr \in s.frs ELSE v.fr = "null"
  /\ IF s.dw = "lft" THEN v.q \in s.qs ELSE v.q = NoQ

NumText(x) == NIsNum(x)
GoodPeriod(x) == x = "null" \/ (NIsNum(x) /\ NIsReal(NParse(x)) /\ NLt(N0, NParse(x)))
GoodFreq(x, dt) == NIsNum(x) /\ NIsReal(NParse(x)) /\ WarpOK(NParse(dt), NParse(x))
GoodQ(x) == x.r = 2 /\ x.c = 2

(* not decided here: undoing a static gain needs no matrix, whether a missing one is minded or not *)
Open(s, o, gain) == gain /\ o.op = "undisc" /\ s.dw = "lft" /\ NoQ \in s.qs

(* operation o in state s: <<next state>>, or <<>> when it must be refused.
   A static gain needs no method, it just takes the period ("gain": TRUE). *)
Book(s, o, gain) ==
  CASE o.op = "disc" ->
         IF s.dt # "null" \/ ~GoodPeriod(o.dt) \/ o.dt = "null" \/ o.method \notin Known THEN <<>>
         ELSE IF gain THEN << Fresh(o.dt) >>
         ELSE IF o.method \in TustinNames /\ ~GoodFreq(o.fr, o.dt) THEN <<>>
         ELSE IF o.method = "lft" /\ ~GoodQ(o.q) THEN <<>>
         ELSE << [dt |-> o.dt, dw |-> o.method,
                  frs |-> {IF o.method \in TustinNames THEN o.fr ELSE "0"},
                  qs |-> {IF o.method = "lft" THEN o.q ELSE NoQ}] >>
    [] o.op = "undisc" ->
         IF s.dt = "null" THEN <<>>
         ELSE IF s.dw = "lft" /\ NoQ \in s.qs THEN <<>>
         ELSE << Fresh("null") >>
    [] o.op = "setdt" ->
         IF ~GoodPeriod(o.v) THEN <<>>
         ELSE IF o.v = "null" \/ s.dt = "null" THEN << Fresh(o.v) >>
         ELSE << [s EXCEPT !.dt = o.v] >>
    [] o.op = "setdw" ->
         IF s.dt = "null" \/ o.v \notin Known THEN <<>>
         ELSE IF o.v = s.dw THEN << s >>
         ELSE << [s EXCEPT !.dw = o.v, !.frs = @ \cup {"0"}, !.qs = @ \cup {NoQ}] >>
    [] o.op = "setfr" ->
         IF s.dt = "null" \/ s.dw \notin TustinNames \/ ~GoodFreq(o.v, s.dt) THEN <<>>
         ELSE << [s EXCEPT !.frs = {o.v}] >>
    [] o.op = "setq" ->
         IF s.dt = "null" \/ s.dw # "lft" \/ ~GoodQ(o.v) THEN <<>>
         ELSE << [s EXCEPT !.qs = {o.v}] >>
=============================================================================
