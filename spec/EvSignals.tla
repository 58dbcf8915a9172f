------------------------------ MODULE EvSignals ------------------------------
(* Verdicts on recorded frequency responses, simulations, norms and designs.   *)
EXTENDS EvMemory, Design
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Nums(s) == SEval([q \in DOMAIN s |-> NParse(s[q])])
AllNums(s) == \A q \in DOMAIN s : NIsNum(s[q])
RealNums(s) == \A q \in DOMAIN s : NIsNum(s[q]) /\ NIsReal(NParse(s[q]))
SameList(a, b, tol) == Len(a) = Len(b) /\ \A q \in DOMAIN a : CloseN(a[q], b[q], tol)

(* frequency_response(x, w, w_unit, output_unit); ev.auto: no w given.
   g = [nd, p, m, w: reported frequencies, at: positions, v: the slices at these positions, nv: number of slices] *)
FreqViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      dt == X.dt
      siso == X.p = 1 /\ X.m = 1
      req == SEval([q \in DOMAIN ev.w |-> ToRad(NParse(ev.w[q]), ev.wu)])
      kept == Kept(req, dt)
      must == ev.auto \/ (ev.shape = "ok" /\ kept # <<>>)
      open == ~ev.auto /\ \E q \in DOMAIN req : Near(req[q], dt)
      slice(g, q, w) ==
        LET s == OnAxis(w, dt)
        IN IF ~WellAt(px, s) THEN {}
           ELSE IF ~MIsNum(g.v[q]) THEN {"value"}
           ELSE If(CloseM(MParse(g.v[q]), At(px, s)[1], Tol6), "value")
      v(g) == IF g.k = "X" THEN {"malformed"}
              ELSE IF g.nd # (IF siso THEN 1 ELSE 3) \/ g.p # X.p \/ g.m # X.m THEN {"shape"}
              ELSE IF g.nv # Len(g.w) THEN {"slices"}
              ELSE IF ~RealNums(g.w) THEN {"grid"}
              ELSE LET ws == SEval([q \in DOMAIN g.w |-> ToRad(NParse(g.w[q]), ev.ou)])
                   IN (IF ev.auto THEN If(GridOK(ws, dt), "grid") ELSE If(SameList(ws, kept, Tol9), "frequencies"))
                      \cup UNION { slice(g, q, ws[g.at[q]]) : q \in DOMAIN g.at }
  IN If(ev.x = ev.x2 /\ ev.w = ev.w2, "operands-changed") \cup
     IF open THEN {}
     ELSE IF ~must THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)

----------------------------------------------------------------------------
(* simulate_linear_system(x, u, t, x0, per_channel).
   ev.u: N x m; ev.ts: times or <<>>; ev.x0: 1 x n or empty; ev.pc; ev.flaw names what was made wrong on purpose.
   g = [nd, t, y]: y a sequence of N x p matrices, one per input if per channel *)
Inputs(U) == SEval([q \in 1..U.r |-> MEval([r |-> U.c, c |-> 1, e |-> [i \in 1..U.c |-> << U.e[q][i] >>]])])
Rows(ys, p) == MEval([r |-> Len(ys), c |-> p, e |-> [q \in DOMAIN ys |-> [i \in 1..p |-> ys[q].e[i][1]]]])
Responses(R, dt, h, us, x0, split, p) ==
  IF split THEN SEval([j \in 1..R.d.c |-> Rows(Simulate(R, dt, h, Only(us, j), x0), p)])
  ELSE << Rows(Simulate(R, dt, h, us, x0), p) >>
OutOK(g, ys, ts, X, split) ==
  IF g.k = "X" THEN {"malformed"}
  ELSE IF g.nd # (IF split THEN 3 ELSE 2) \/ Len(g.y) # Len(ys) THEN {"shape"}
  ELSE IF \E j \in DOMAIN ys : g.y[j].r # ys[j].r \/ g.y[j].c # ys[j].c THEN {"shape"}
  ELSE IF ~AllNum(g.y) THEN {"value"}
  ELSE If(\A j \in DOMAIN ys : CloseM(MParse(g.y[j]), ys[j], Tol6), "value")
       \cup If(RealNums(g.t) /\ SameList(Nums(g.t), ts, Tol9), "times")
Horizon(n, h) == SEval([q \in 1..n |-> NMul(NInt(q - 1), h)])
SimViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      dt == X.dt
      n == ev.u.r
      ts == IF ev.ts = <<>> THEN (IF dt = "null" THEN <<>> ELSE Horizon(n, NParse(dt))) ELSE Nums(ev.ts)
      x0 == IF ev.x0.c = 0 THEN <<>> ELSE << MTrans(MParse(ev.x0)) >>
      R == Realize(px)
      split == ev.pc /\ X.m > 1
      bad == \/ ev.flaw \in {"t2d", "x02d", "u3d", "uempty"}
             \/ ev.ts = <<>> /\ dt = "null"
             \/ ev.u.c # X.m
             \/ ev.ts # <<>> /\ (Len(ts) # n \/ Uneven(ts) \/ (Len(ts) >= 2 /\ dt # "null" /\ OtherPeriod(NSub(ts[2], ts[1]), dt)))
             \/ x0 # <<>> /\ (X.k = "T" \/ X.gain \/ ev.x0.c # R.a.r)
      good == ~bad /\ (ev.ts = <<>> \/ (Even(ts) /\ (dt = "null" \/ SamePeriod(NSub(ts[2], ts[1]), dt))))
      h == IF dt = "null" THEN NSub(ts[2], ts[1]) ELSE NParse(dt)
      start == IF x0 = <<>> THEN MZero(R.a.r, 1) ELSE x0[1]
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF bad THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ~good THEN {}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE OutOK(ev.out.g, Responses(R, dt, h, Inputs(MParse(ev.u)), start, split, X.p), ts, X, split)

(* simulate_step_response / simulate_impulse_response (x, t) *)
RespViol(ev) ==
  LET X == ev.x
      dt == X.dt
      R == Realize(Parsed(X))
      ts == Nums(ev.ts)
      split == X.m > 1
      bad == ev.flaw = "t2d" \/ Len(ts) < 2 \/ Uneven(ts) \/ (dt # "null" /\ OtherPeriod(NSub(ts[2], ts[1]), dt))
      good == ~bad /\ Even(ts) /\ (dt = "null" \/ SamePeriod(NSub(ts[2], ts[1]), dt))
      h == NSub(ts[2], ts[1])
      us == IF ev.resp = "step" THEN StepInput(X.m, Len(ts)) ELSE PulseInput(X.m, Len(ts), h)
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF bad THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ~good THEN {}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE OutOK(ev.out.g, Responses(R, dt, h, us, MZero(R.a.r, 1), split, X.p), ts, X, split)

(* the same without a time vector: g = [n, t0, t1, tn, dmin, dmax, y (first samples)].
   ev.slow: a pole whose mode shows in every channel of a stable model, or "none" *)
AutoViol(ev) ==
  LET X == ev.x
      dt == X.dt
      R == Realize(Parsed(X))
      split == X.m > 1
      v(g) ==
        IF g.k = "X" THEN {"malformed"}
        ELSE IF ~RealNums(<<g.t0, g.tn, g.dmin, g.dmax>>) \/ g.n < 2 THEN {"grid"}
        ELSE LET lo == NParse(g.dmin)
                 hi == NParse(g.dmax)
                 tn == NParse(g.tn)
                 h == NDiv(tn, NInt(g.n - 1))
                 first == Nums(g.t)
                 hs == IF dt = "null" THEN NSub(first[2], first[1]) ELSE NParse(dt)
                 us == IF ev.resp = "step" THEN StepInput(X.m, Len(first)) ELSE PulseInput(X.m, Len(first), hs)
                 mode == IF ev.slow = "none" THEN N0
                         ELSE IF dt = "null" THEN NAbs2(NExp(NMul(NParse(ev.slow), tn)))
                         ELSE PowMag(NAbs2(NParse(ev.slow)), g.n - 1)
             IN If(/\ NParse(g.t0) = N0 /\ NLt(N0, lo) /\ NLe(NSub(hi, lo), NMul(Tol6, h))
                   /\ dt # "null" => NLe(NMag(NSub(h, NParse(dt))), NMul(Tol9, NParse(dt))), "grid")
                \cup If(NLe(mode, NMul(Settled, Settled)) \/ g.n >= 70000, "horizon")
                \cup OutOK([k |-> "Y", nd |-> g.nd, y |-> g.y, t |-> g.t],
                           Responses(R, dt, hs, us, MZero(R.a.r, 1), split, X.p), first, X, split)
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)

----------------------------------------------------------------------------
(* system_norm(x, p): g = [v] *)
Coprime(Y) == \A i \in 1..Y.p, j \in 1..Y.m :
  PTrim(Y.num[i][j]) = <<>> \/ Len(PGcd(PTrim(Y.num[i][j]), PTrim(Y.den[i][j]))) = 1
(* no pole is beyond the edge of stability: rounding may put the poles on it on either side *)
OnEdge(R, dt) ==
  LET A == IF dt = "null" THEN MSub(R.a, MScale(Tol9, MEye(R.a.r))) ELSE MScale(NSub(N1, Tol9), R.a)
  IN StableSS([R EXCEPT !.a = MEval(A)], dt)
NormViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      R == Realize(px)
      st == StableSS(R, X.dt)
      dz == MIsZero(R.d)
      void == X.k = "T" /\ \E i \in 1..px.p, j \in 1..px.m : PTrim(px.num[i][j]) = <<>> /\ Len(PTrim(px.den[i][j])) > 1
      v(g) == IF g.k # "N" THEN {"malformed"}
              ELSE IF void /\ g.v = "inf" THEN {"~hidden"}
              ELSE IF ~st THEN IF X.k = "T" /\ ~Coprime(px) THEN {"~hidden"} ELSE If(g.v = "inf" \/ (OnEdge(R, X.dt) /\ NIsNum(g.v) /\ NLt(NInt(100000), NParse(g.v))), "infinite")
              ELSE IF ev.p = "2" /\ X.dt = "null" /\ ~dz THEN If(g.v = "inf", "infinite")
              ELSE IF ~NIsNum(g.v) THEN {"value"}
              ELSE LET n == NParse(g.v) IN
                   IF ~NIsReal(n) \/ NSign(n) = -1 THEN {"value"}
                   ELSE IF ev.p = "2" THEN If(CloseN(NMul(n, n), H2Sq(R, X.dt), Tol6), "value")
                   ELSE If(HinfIs(R, X.dt, n), "value")
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)

(* lqr(x, Q, R, S, weight_on): args Q, R, S (R, S possibly empty = left out); g = [K, X, e] *)
LqrViol(ev) ==
  LET X == ev.x
      R == Realize(Parsed(X))
      n == R.a.r
      m == X.m
      M == Mats(ev)
      q == IF ev.on = "output" THEN X.p ELSE n
      Q == M[1]
      W == IF M[2].c = 0 THEN MEye(m) ELSE M[2]
      S == IF M[3].c = 0 THEN MZero(q, m) ELSE M[3]
      fits == MShape(Q) = <<q, q>> /\ MShape(W) = <<m, m>> /\ MShape(S) = <<q, m>>
      bad == X.gain \/ ev.on \notin {"state", "output"} \/ ~fits \/ ~Symmetric(Q) \/ ~Symmetric(W)
      v(g) ==
        IF ~AllNum(<<g.K, g.X>>) \/ ~AllNums(g.e) THEN {"malformed"}
        ELSE IF MShape(g.K) # <<m, n>> \/ MShape(g.X) # <<n, n>> THEN {"shape"}
        ELSE LET w == IF ev.on = "output" THEN Pulled(R, Q, S, W) ELSE [Q |-> Q, S |-> S, W |-> W]
                 K == MParse(g.K)
                 Z == MParse(g.X)
                 sc == NMul(NAdd(N1, MMax(Z)), NAdd(N1, NMul(MMax(Z), NMul(MMax(R.b), MMax(R.b)))))
                 small(Y) == NLe(MMax(Y), NMul(Tol6, sc))
                 es == Nums(g.e)
             IN If(NLe(MDist(Z, MTrans(Z)), NMul(Tol8, NAdd(N1, MMax(Z)))), "symmetric")
                \cup If(small(Riccati(R, X.dt, w, Z)), "riccati")
                \cup If(small(GainRes(R, X.dt, w, Z, K)), "gain")
                \cup If(EigsAre(Closed(R.a, R.b, K), es, Tol5), "eigenvalues")
                \cup If(\A i \in DOMAIN es : Inside(X.dt, es[i]), "stable")
  IN Unchanged(ev) \cup If(ev.x = ev.x2, "operands-changed") \cup
     IF bad THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ~Solvable(R, ev.on, Q, S, W) THEN {"~unsolvable"}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF ev.out.g.k = "X" THEN {"malformed"} ELSE v(ev.out.g)

(* ackermann((A, B), loc): args A, B; g = [K] *)
AckViol(ev) ==
  LET M == Mats(ev)
      A == M[1]
      B == M[2]
      loc == Nums(ev.loc)
      n == A.r
      fits == B.c = 1 /\ Len(loc) = n /\ SelfConj(loc) /\ ev.flat
      Kr == Krylov(A, B)
      inv == IF fits THEN MInv(Kr) ELSE <<>>
      v(g) == IF ~MIsNum(g.K) THEN {"malformed"}
              ELSE IF MShape(g.K) # <<1, n>> THEN {"shape"}
              ELSE If(CloseP(MCharPoly(Closed(A, B, MParse(g.K))), PFromRoots(loc), Tol5), "poles")
  IN Unchanged(ev) \cup
     IF ~fits \/ inv = <<>> THEN If(ev.out.t = "err" /\ ev.out.e = "ValueError", "accepted-invalid")
     ELSE IF NLt(NInt(100000), NMul(MMax(inv[1]), MMax(Kr))) THEN {"~ill-conditioned"}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF ev.out.g.k = "X" THEN {"malformed"} ELSE v(ev.out.g)
=============================================================================
