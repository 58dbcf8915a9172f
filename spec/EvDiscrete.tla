----------------------------- MODULE EvDiscrete -----------------------------
(* Verdicts on recorded calls of discretize / undiscretize and on recorded    *)
(* histories of the discretization attributes.                                *)
EXTENDS EvLinalg, Discrete
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

QOf(m) == IF m.r = 0 THEN m ELSE MParse(m)

(* discretize(x, dt, method, fr, q) *)
DiscViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      fam == Family(ev.method)
      T == NParse(ev.dt)
      f == NParse(ev.fr)
      q == Subst(fam, T, f, QOf(ev.q))
      r == [k |-> X.k, p |-> X.p, m |-> X.m, dt |-> ev.dt]
      hold == fam \in {"zoh", "foh"}
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF X.gain THEN IF ev.out.t = "err" THEN {"refused-valid"} ELSE ModelViol(ev.out.g, r, AtSamples(px), Tol6)
     ELSE IF ~hold /\ ~Proper(px, q) THEN {}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE ModelViol(ev.out.g, r, DiscSamples(px, fam, T, f, QOf(ev.q)), Tol5) \cup
          (* prewarping is exact at its frequency *)
          IF fam # "tustin" \/ NIsZero(f) \/ ~SoundModel(ev.out.g) \/ MShape(MZero(ev.out.g.p, ev.out.g.m)) # <<X.p, X.m>> THEN {}
          ELSE LET w == NMul(N2, NMul(Pi, f))
                   z == NRound(NExp(NCplx(N0, NMul(w, T))), 150)
                   e == At(px, NCplx(N0, w))
                   g == At(Parsed(ev.out.g), z)
               IN IF e = <<>> \/ ~NLe(MMax(e[1]), NInt(1000)) THEN {}
                  ELSE If(g # <<>> /\ CloseM(g[1], e[1], Tol4), "warp")

(* the rule sends z = 0 to s = infinity: its inverse is not of the form of a rule *)
NoInverse(q) == NLe(NMag(NSub(q.bc, NMul(q.a, q.d))), NMul(Tol6, NMag(q.bc)))

(* Round trip: y = discretize(x, ...), out = undiscretize(y, ...).  ev.made: y could be made.
   A pole of the continuous model that aliases (hold) or a rule with no proper inverse is not claimed. *)
RoundViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      fam == Family(ev.method)
      T == NParse(ev.dt)
      q == Subst(fam, T, NParse(ev.fr), QOf(ev.q))
      hold == fam \in {"zoh", "foh"}
      r == [k |-> X.k, p |-> X.p, m |-> X.m, dt |-> "null"]
  IN If(ev.y = ev.y2, "operands-changed") \cup
     IF ~ev.made THEN {"~not-made"}
     ELSE IF ~X.gain /\ ~hold /\ ~Proper(px, q) THEN {}
     ELSE IF ~X.gain /\ fam = "lft" /\ NoInverse(q)
          THEN IF ev.out.t = "err" THEN {} ELSE ModelViol(ev.out.g, r, AtSamples(px), Tol4)
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE ModelViol(ev.out.g, r, AtSamples(px), Tol4)

(* undiscretize(x, method, fr, q) of a discrete model that never was discretized: substitution only *)
BackViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      fam == Family(ev.method)
      T == NParse(X.dt)
      q == Subst(fam, T, NParse(ev.fr), QOf(ev.q))
      r == [k |-> X.k, p |-> X.p, m |-> X.m, dt |-> "null"]
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF X.gain THEN IF ev.out.t = "err" THEN {"refused-valid"} ELSE ModelViol(ev.out.g, r, AtSamples(px), Tol6)
     ELSE IF ~ProperBack(px, q) THEN {}
     ELSE IF fam = "lft" /\ NoInverse(q)
          THEN IF ev.out.t = "err" THEN {} ELSE ModelViol(ev.out.g, r, BackSamples(px, q), Tol5)
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE ModelViol(ev.out.g, r, BackSamples(px, q), Tol5)

(* a history of the attributes *)
Narrow(s, v) == [s EXCEPT !.frs = IF s.dw \in TustinNames THEN {v.fr} ELSE @,
                          !.qs = IF s.dw = "lft" THEN {v.q} ELSE @]
RECURSIVE BookFold(_, _, _, _, _)
BookFold(steps, i, s, last, gain) ==
  IF i > Len(steps) THEN {}
  ELSE LET st == steps[i]
           nx == Book(s, st, gain)
       IN IF Open(s, st, gain) THEN {}
          ELSE IF nx = <<>>
          THEN IF st.out = "ok" THEN {"accepted-invalid:" \o st.op}
               ELSE IF st.out \notin {"ValueError", "TypeError"} THEN {"error-class:" \o st.op}
               ELSE IF st.vis # last THEN {"changed-by-refusal:" \o st.op}
               ELSE BookFold(steps, i + 1, s, last, gain)
          ELSE IF st.out # "ok" THEN {"refused-valid:" \o st.op}
          ELSE IF ~Shows(st.vis, nx[1]) THEN {"shows:" \o st.op}
          ELSE BookFold(steps, i + 1, Narrow(nx[1], st.vis), st.vis, gain)
BookViol(ev) ==
  LET s == Fresh(ev.init.dt)
  IN IF ~Shows(ev.init, s) THEN {"shows:new"} ELSE BookFold(ev.steps, 1, s, ev.init, ev.gain)
=============================================================================
