------------------------------- MODULE EvPlots -------------------------------
(* Verdicts on recorded figures, and on random and stacked state data.         *)
EXTENDS EvGrammar, Plots
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

(* Figures.  ev = [fn, xs: models, auto, w: given grid (frequencies or times), o: options, colors: requested cycle,
   ref: per model what is computed without plotting: [n, x: grid at the positions], out].
   out.g = [rows, cols, cells: per panel (row major) the record [on, logx, lines, marks], words: all texts];
   line = [sys, in, out, what, n, at: positions, x, y: the data there, jump: largest step of y, draw, color];
   sys .. what of a line of a Bode plot come from its label. *)
LnTen == NParse("3286359261234889770633898419357000117325565933p-150")
Unit(o) == IF o.hz THEN "Hz" ELSE "rad/s"
(* one entry of the response at frequency w (in the unit of the figure), <<>> if no check there *)
Entry1(px, dt, w, i, j) ==
  LET s == OnAxis(w, dt)
  IN IF ~WellAt(px, s) THEN <<>> ELSE << At(px, s)[1].e[i][j] >>
Small == NFrac(1, 10000)
MagOK(y, g, o) == LET e == NExp(NMul(NMul(NParse(y), LnTen), NFrac(2, IF o.db THEN 20 ELSE 1)))
                  IN NLe(NMag(NSub(e, NAbs2(g))), NMul(Tol6, NAbs2(g)))
PhaseOK(y, g, o) ==
  LET a == IF o.deg THEN NDiv(NMul(NParse(y), Pi), NInt(180)) ELSE NParse(y)
      r == NMul(g, NExp(NCplx(N0, NNeg(a))))
  IN NLt(N0, NRe(r)) /\ NLe(NMag(NIm(r)), NMul(Tol6, NMag(g)))
ZeroEntry(X, px, i, j) == X.k = "T" /\ PTrim(px.num[i][j]) = <<>>

BodeLine(ev, q, l, grid, i, j, what) ==
  LET X == ev.xs[q]
      px == Parsed(X)
      u == Unit(ev.o)
      ws == SEval([k \in DOMAIN l.at |-> ToRad(NParse(l.x[k]), u)])
      half == IF ev.o.deg THEN NInt(180) ELSE Pi
      bad(k) ==
        IF ZeroEntry(X, px, i, j) THEN NIsNum(l.y[k])
        ELSE LET g == Entry1(px, X.dt, ws[k], i, j)
             IN IF g = <<>> THEN FALSE
                ELSE IF NLt(NMag(g[1]), Small) THEN FALSE
                ELSE IF ~NIsNum(l.y[k]) THEN TRUE
                ELSE IF what = "mag" THEN ~MagOK(l.y[k], g[1], ev.o) ELSE ~PhaseOK(l.y[k], g[1], ev.o)
  IN IF ~RealNums(l.x) THEN {"grid"}
     ELSE (IF ev.auto
           THEN If(GridOK(ws, X.dt), "grid") \cup If(l.n = ev.ref[q].n \/ Len(ev.xs) > 1, "grid")
           ELSE If(l.n = Len(grid[q]), "grid") \cup
                If(l.n # Len(grid[q]) \/ \A k \in DOMAIN l.at : CloseN(ws[k], grid[q][l.at[k]], Tol9), "grid"))
          \cup If(\A k \in DOMAIN l.at : ~bad(k), what)
          \cup If(what # "phase" \/ ~NIsNum(l.jump) \/ NLe(NParse(l.jump), NMul(half, NAdd(N1, Tol9))), "unwrapped")
NyqLine(ev, q, l) ==
  LET w == NyqRad(ev.xs[q].dt)
  IN If(RealNums(l.x) /\ \A k \in DOMAIN l.x : CloseN(ToRad(NParse(l.x[k]), Unit(ev.o)), w, Tol9), "nyquist-line")
LocusLine(ev, q, l, grid, i, j, what) ==
  LET X == ev.xs[q]
      px == Parsed(X)
      known == ~ev.auto \/ Len(ev.xs) = 1
      n == IF ~ev.auto THEN Len(grid[q]) ELSE ev.ref[q].n
      w(k) == IF ~ev.auto THEN grid[q][l.at[k]] ELSE ToRad(NParse(ev.ref[q].x[k]), Unit(ev.o))
      bad(k) == LET g == Entry1(px, X.dt, w(k), i, j)
                IN IF g = <<>> THEN FALSE
                   ELSE IF ~NIsNum(l.x[k]) \/ ~NIsNum(l.y[k]) THEN TRUE
                   ELSE LET y == NParse(l.y[k])
                        IN ~CloseN(NCplx(NParse(l.x[k]), IF what = "mirror" THEN NNeg(y) ELSE y), g[1], Tol6)
  IN IF ~known THEN If(l.n > 1, "grid")
     ELSE IF l.n # n THEN {"grid"}
     ELSE If(\A k \in DOMAIN l.at : ~bad(k), what)
(* times: the first samples against the exact response; further positions against what is computed without plotting *)
TimeLine(ev, q, l, i, j, ys) ==
  LET X == ev.xs[q]
      ref == ev.ref[q]
      first == { k \in DOMAIN l.at : l.at[k] <= ys[1].r }
      want(k) == ys[IF X.m > 1 THEN j ELSE 1].e[l.at[k]][i]
      same(a, b) == IF NIsNum(b) THEN NIsNum(a) /\ CloseN(NParse(a), NParse(b), Tol9) ELSE ~NIsNum(a)      \* overflow stays overflow
  IN IF ~RealNums(l.x) \/ l.n # ref.n THEN {"grid"}
     ELSE If(\A k \in DOMAIN l.at : CloseN(NParse(l.x[k]), NParse(ref.x[k]), Tol9), "grid")
          \cup If(\A k \in first : NIsNum(l.y[k]) /\ CloseN(NParse(l.y[k]), want(k), Tol6), "time")
          \cup If(\A k \in DOMAIN l.at : same(l.y[k], ref.y[i][j][k]), "time")
          \cup If(l.draw = IF X.dt = "null" THEN "default" ELSE "steps-post", "hold")
RefTimes(ev, q) == Nums(ev.ref[q].first)
TimeRef(ev, q) ==
  LET X == ev.xs[q]
      R == Realize(Parsed(X))
      ts == RefTimes(ev, q)
      h == IF X.dt = "null" THEN NSub(ts[2], ts[1]) ELSE NParse(X.dt)
      us == IF ev.fn = "step" THEN StepInput(X.m, Len(ts)) ELSE PulseInput(X.m, Len(ts), h)
  IN Responses(R, X.dt, h, us, MZero(R.a.r, 1), X.m > 1, X.p)

Words(ev, g) ==
  IF ev.fn # "bode" THEN {}
  ELSE If(/\ g.words.hz = ev.o.hz /\ g.words.rads = ~ev.o.hz
          /\ g.words.db = ev.o.db /\ g.words.deg = ev.o.deg /\ g.words.rad = ~ev.o.deg, "units")

PlotViol(ev) ==
  LET fn == ev.fn
      rows == PanelRows(fn, ev.xs)
      cols == PanelCols(fn, ev.xs)
      req == IF ev.auto THEN <<>> ELSE SEval([k \in DOMAIN ev.w |-> ToRad(NParse(ev.w[k]), Unit(ev.o))])
      grid == [q \in DOMAIN ev.xs |-> IF fn \in {"bode", "nyquist"} /\ ~ev.auto THEN Kept(req, ev.xs[q].dt) ELSE <<>>]
      ys == IF fn \in {"step", "impulse"} THEN SEval([q \in DOMAIN ev.xs |-> TimeRef(ev, q)]) ELSE <<>>
      line(l, want, r, j) ==
        LET i == OutputOf(fn, r)
        IN CASE want.what \in {"mag", "phase"} -> BodeLine(ev, want.sys, l, grid, i, j, want.what)
             [] want.what = "nyquist" -> NyqLine(ev, want.sys, l)
             [] want.what \in {"locus", "mirror"} -> LocusLine(ev, want.sys, l, grid, i, j, want.what)
             [] OTHER -> TimeLine(ev, want.sys, l, i, j, ys[want.sys])
      panel(c, r, j) ==
        LET want == PanelCurves(fn, ev.xs, r, j, ev.o.neg)
            i == OutputOf(fn, r)
            mine(e) == { a \in DOMAIN c.lines : c.lines[a].sys = e.sys - 1 /\ c.lines[a].in = j - 1 /\ c.lines[a].out = i - 1
                                                /\ c.lines[a].what = (IF e.what = "nyquist" THEN PartOf(fn, r) \o "_nyqline" ELSE e.what) }
            got(a) == IF fn = "bode" THEN c.lines[CHOOSE b \in mine(want[a]) : TRUE] ELSE c.lines[a]
            styled == ev.colors = <<>> \/ \A a \in DOMAIN want : got(a).color = ev.colors[((want[a].sys - 1) % Len(ev.colors)) + 1]
        IN IF Len(c.lines) # Len(want) THEN {"lines"}
           ELSE IF fn = "bode" /\ \E a \in DOMAIN want : Cardinality(mine(want[a])) # 1 THEN {"lines"}
           ELSE If(want = <<>> \/ c.on, "hidden")
                \cup If(fn # "bode" \/ want = <<>> \/ c.logx, "scale")
                \cup If(styled, "style")
                \cup If(fn # "nyquist" \/ want = <<>> \/ c.marks, "critical-point")
                \cup UNION { line(got(a), want[a], r, j) : a \in DOMAIN want }
      v(g) == IF g.k = "X" THEN {"malformed"}
              ELSE IF g.rows # rows \/ g.cols # cols \/ Len(g.cells) # rows * cols THEN {"panels"}
              ELSE Words(ev, g) \cup UNION { panel(g.cells[(r - 1) * cols + j], r, j) : r \in 1..rows, j \in 1..cols }
      (* every model must have something to show at the given frequencies *)
      must == ev.auto \/ fn \in {"step", "impulse"} \/ \A q \in DOMAIN ev.xs : grid[q] # <<>>
      open == ~ev.auto /\ fn \in {"bode", "nyquist"} /\ \E q \in DOMAIN ev.xs, k \in DOMAIN req : Near(req[k], ev.xs[q].dt)
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF ~must \/ open THEN {}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)

----------------------------------------------------------------------------
(* random_state_model *)
FlipSign(p) == SEval([q \in DOMAIN p |-> IF (Len(p) - q) % 2 = 0 THEN p[q] ELSE NNeg(p[q])])   \* p(-x)
Variations(p, where) == Changes(AtEnd(Sturm(p), where))
(* number of different real roots *)
RealRoots(p) ==
  IF Len(p) <= 1 THEN 0
  ELSE LET z == NIsZero(p[Len(p)])
           q == IF z THEN PTrim(SubSeq(p, 1, Len(p) - 1)) ELSE p
           pos(f) == Variations(f, "0") - Variations(f, "inf")
       IN IF z /\ NIsZero(q[Len(q)]) THEN 0 - 1
          ELSE (IF z THEN 1 ELSE 0) + (IF Len(q) <= 1 THEN 0 ELSE pos(q) + pos(FlipSign(q)))
Coarse(X) == MRound(X, 90)
(* charpoly of A against itself mirrored: eigenvalues in pairs (s, -s), resp. (z, 1/z) *)
EvenPoly(p) == \A q \in DOMAIN p : (Len(p) - q) % 2 = 0 \/ NLe(NMag(p[q]), NMul(Tol6, PNorm(p)))
Palindrome(p) == \A q \in DOMAIN p : NLe(NMag(NSub(p[q], p[Len(p) + 1 - q])), NMul(Tol6, PNorm(p)))
PoleKinds(A, dt, dist) ==
  LET n == A.r
      p == MCharPoly(A)
  IN IF dt # "null" /\ dist # "integrator" /\ NLt(NFrac(1, 2), NParse(dt)) THEN {}     \* e^(15 dt): lost in rounding
     ELSE CASE dist = "real" -> If(RealRoots(p) = n, "pole-kind")
       [] dist = "complex" -> If(RealRoots(p) = n % 2, "pole-kind")
       [] dist = "integrator" -> If(CloseM(A, IF dt = "null" THEN MZero(n, n) ELSE MEye(n), Tol6), "pole-kind")
       [] dist = "circle" /\ n % 2 = 0 ->
            If((IF dt = "null" THEN EvenPoly(p) ELSE Palindrome(p)) /\ RealRoots(p) = 0, "pole-kind")
       [] OTHER -> {}
RandViol(ev) ==
  LET g == ev.out.g
      A == MParse(g.a)
  IN IF ev.flaw # "no" THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF g.k # "S" THEN {"not-a-model"}
     ELSE If(g.p = ev.p /\ g.m = ev.m /\ g.n = ev.n, "shape")
          \cup If(g.gain = (ev.n = 0), "kind")
          \cup If(g.dt = ev.dt, "dt")
          \cup IF g.n # ev.n \/ ev.n = 0 THEN {}
               ELSE If(ev.stable => StableSS([a |-> A, b |-> MParse(g.b), c |-> MParse(g.c), d |-> MParse(g.d)], g.dt), "stability")
                    \cup PoleKinds(A, g.dt, ev.dist)
(* concatenate_state_matrices *)
CatViol(ev) ==
  LET X == ev.x
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF X.k # "S" THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE LET px == Parsed(X)
              want == IF X.gain THEN px.d ELSE MVcat(MHcat(px.a, px.b), MHcat(px.c, px.d))
              g == ev.out.g
          IN IF g.k = "X" THEN {"malformed"}
             ELSE IF g.M.r # want.r \/ g.M.c # want.c THEN {"shape"}
             ELSE If(g.own, "shares-memory") \cup If(MIsNum(g.M) /\ MIsZero(MSub(MParse(g.M), want)), "value")
=============================================================================
