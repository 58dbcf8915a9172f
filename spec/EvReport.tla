------------------------------- MODULE EvReport ------------------------------
(* Verdicts on recorded pole properties, arrays of static gains and printed    *)
(* descriptions.                                                               *)
EXTENDS EvPlots, Report
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* pole_properties: g = [k: "none" or "P", rows: <<pole, f, d>>]; ev.poles: the poles of the model *)
PropsViol(ev) ==
  LET X == ev.x
      row(r) ==
        LET p == NParse(r[1])
        IN IF ~NIsNum(r[1]) THEN {"poles"}
           ELSE IF Integrator(p, X.dt) THEN If(NIsNum(r[2]) /\ NIsZero(NParse(r[2])) /\ ~NIsNum(r[3]), "integrator")
           ELSE IF NearIntegrator(p, X.dt) THEN If(NIsNum(r[2]), "frequency")
           ELSE IF X.dt # "null" /\ NLe(NMag(p), Tol6) THEN {}                     \* no finite mode
           ELSE IF ~RealNums(<<r[2], r[3]>>) THEN {"frequency"}
           ELSE If(Describes(NParse(r[2]), NParse(r[3]), p, X.dt, Tol6), "mode")
      v(g) == IF X.gain THEN If(g.k = "none", "gain")
              ELSE IF g.k # "P" THEN {"malformed"}
              ELSE IF [q \in DOMAIN g.rows |-> g.rows[q][1]] # ev.poles THEN {"poles"}
              ELSE UNION { row(g.rows[q]) : q \in DOMAIN g.rows }
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)

(* to_array *)
ArrayViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      want == At(px, NInt(7))
      g == ev.out.g
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF ~X.gain THEN If(ev.out.t = "err", "accepted-invalid")
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF g.k = "X" THEN {"malformed"}
     ELSE IF g.M.r # X.p \/ g.M.c # X.m THEN {"shape"}
     ELSE If(MIsNum(g.M) /\ CloseM(MParse(g.M), want[1], Tol9), "value") \cup If(g.own, "shares-memory")

(* The printed description, taken apart: g = [dom: "R"/"Z", cls: "S"/"T", T, hz: numbers printed, gain, p, m, n: counts
   printed (0 if none), plural: the nouns fit, poles, zeros: the numbers of the table, row by row as texts re;im] *)
Printed(shown, exact) ==       \* six digits
  Len(shown) = Len(exact) /\ \A q \in DOMAIN shown :
    IF ~NIsNum(exact[q]) THEN ~NIsNum(shown[q]) ELSE NIsNum(shown[q]) /\ NLe(NMag(NSub(NParse(shown[q]), NParse(exact[q]))), NMul(Tol5, NAdd(Tol4, NMag(NParse(exact[q])))))
Digits3(t, x) == NIsNum(t) /\ NLe(NMag(NSub(NParse(t), x)), NFrac(6, 10000))
ReprViol(ev) ==
  LET X == ev.x
      v(g) ==
        IF g.k = "X" THEN {"malformed"}
        ELSE If(g.cls = X.k, "class")
             \cup If(g.dom = IF X.dt = "null" THEN "R" ELSE "Z", "domain")
             \cup If(X.dt = "null" \/ (Digits3(g.T, NParse(X.dt)) /\ Digits3(g.hz, NDiv(N1, NParse(X.dt)))), "period")
             \cup If(g.gain = X.gain /\ g.p = X.p /\ g.m = X.m /\ (X.k = "S" /\ ~X.gain => g.n = X.n), "size")
             \cup IF X.gain THEN {} ELSE If(g.plural, "size") \cup If(Printed(g.poles, ev.poles), "poles") \cup If(Printed(g.zeros, ev.zeros), "zeros")
  IN If(ev.before = ev.after, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"} ELSE v(ev.out.g)
=============================================================================
