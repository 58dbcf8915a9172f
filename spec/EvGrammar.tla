----------------------------- MODULE EvGrammar ------------------------------
(* Recorded constructor calls: ev.cls, ev.args (terms), ev.out = error or   *)
(* the model that came back with the storage of its arrays (out.g.form).    *)
EXTENDS EvSignals, Grammar
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Coeffs(v) == IF v = <<>> THEN <<N0>> ELSE v
SameSeq(a, b) == Len(a) = Len(b) /\ \A q \in DOMAIN a : NIsZero(NSub(a[q], b[q]))
SameT(g, v) ==
  /\ g.k = "T" /\ g.p = Len(v.num) /\ g.m = Len(v.num[1])
  /\ \A i \in 1..g.p, j \in 1..g.m :
       /\ AllNums(g.num[i][j]) /\ AllNums(g.den[i][j])
       /\ SameSeq(Nums(g.num[i][j]), Coeffs(v.num[i][j])) /\ SameSeq(Nums(g.den[i][j]), Coeffs(v.den[i][j]))
SameMat(x, y) == MShape(x) = MShape(y) /\ MIsNum(x) /\ MIsZero(MSub(MParse(x), y))
SameS(g, v) ==
  g.k = "S" /\ SameMat(g.d, v.d) /\ g.n = v.a.r /\ g.p = v.d.r /\ g.m = v.d.c
  /\ (g.n > 0 => SameMat(g.a, v.a) /\ SameMat(g.b, v.b) /\ SameMat(g.c, v.c))
Static(cls, v) == IF cls = "T" THEN \A i \in DOMAIN v.den : \A j \in DOMAIN v.den[i] : Len(v.den[i][j]) = 1
                  ELSE v.a.r = 0
BuildViol(ev) ==
  LET t == ev.args
      R == IF ev.cls = "T" THEN Fraction(t[1], t[2]) ELSE Quad(t[1], t[2], t[3], t[4])
      v(g) ==
        IF g.k = "X" THEN {"malformed"}
        ELSE If(IF ev.cls = "T" THEN SameT(g, R.v) ELSE SameS(g, R.v), "value")
             \cup If(g.dt = ev.dt, "dt")
             \cup If(\A q \in DOMAIN g.form : g.form[q] = "float64 2", "form")
             \cup If(g.static = "unknown" \/ (g.static = "yes") = Static(ev.cls, R.v), "static")
             \cup If(g.nin = g.m /\ g.nout = g.p, "channels")
  IN If(ev.terms = ev.after, "operands-changed") \cup
     IF R.s = "free" THEN {}
     ELSE IF R.s = "bad" THEN If(ev.out.t = "err" /\ ev.out.e \in {"ValueError", "IndexError", "TypeError"}, "accepted-invalid")
     ELSE IF ev.out.t = "err" THEN If(R.soft /\ ev.out.e \in {"ValueError", "IndexError", "TypeError"}, "refused-valid")
     ELSE v(ev.out.g)
=============================================================================
