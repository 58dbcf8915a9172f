------------------------------ MODULE EvModels ------------------------------
(* Verdicts on recorded calls of the functions of module Models.            *)
EXTENDS EvAlgebra, Models
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

(* a returned model G against expected facets and expected sample values *)
ModelViol(G, r, es, tol) ==
  IF G.k \notin {"S", "T"} THEN {"not-a-model"}
  ELSE IF ~(ShapeOK(G) /\ NumericOK(G)) THEN {"malformed"}
  ELSE FacetViol(G, r) \cup
       IF G.p # r.p \/ G.m # r.m THEN {}
       ELSE IF ~Conclusive(es) THEN {"~inconclusive"}
       ELSE If(SameSystemF(AtSamples(Parsed(G)), es, SizeOf(es), tol), "value")

(* conversion: ev.to is the requested class; ev.raw: the answer came as bare data (no sampling period) *)
ConvViol(ev) ==
  LET X == ev.x
      r == [k |-> ev.to, p |-> X.p, m |-> X.m, dt |-> IF ev.rawin \/ ev.rawout THEN "null" ELSE X.dt]
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE ModelViol(ev.out.g, r, AtSamples(Parsed(X)), Tol5) \cup
          If(X.k = ev.to /\ ~ev.rawin /\ ~ev.rawout => ev.same, "not-unchanged")

IndexViol(ev) ==
  LET X == ev.x
      rs == Sel(ev.rows, X.p)
      cs == Sel(ev.cols, X.m)
      xs == AtSamples(Parsed(X))
      es == SEval([i \in NS |-> SubM(xs[i], rs[1], cs[1])])
      r == [k |-> X.k, p |-> Len(rs[1]), m |-> Len(cs[1]), dt |-> X.dt]
      empty == rs[1] = <<>> \/ cs[1] = <<>>
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF rs = <<>> \/ cs = <<>>
     THEN If(ev.out.t = "err" /\ ev.out.e \in {"IndexError", "ValueError"}, "accepted-invalid")
     ELSE IF empty THEN {}
     ELSE IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE ModelViol(ev.out.g, r, es, Tol6)

(* G[...] = v is always refused *)
SetItemViol(ev) ==
  If(ev.x = ev.x2, "operands-changed") \cup If(ev.out.t = "err", "accepted-invalid")

FeedbackViol(ev) ==
  LET X == ev.x
      Y == ev.y
      px == Parsed(X)
      py == Parsed(Y)
      s == IF ev.neg THEN -1 ELSE 1
      Dx == AtInf(px)
      Dy == AtInf(py)
      both == ev.neg /\ ~MIsZero(MMul(Dy, Dx))
      xs == AtSamples(px)
      ys == AtSamples(py)
      es == SEval([i \in NS |-> Loop(xs[i], ys[i], s)])
      ds == SEval([i \in NS |-> LoopDev(xs[i], ys[i], Dx, Dy)])
      r == [k |-> FbKind(X, Y), p |-> X.p, m |-> X.m, dt |-> Dt(X, Y)]
      fits == FbFits(X, Y) /\ ~DtClash(X, Y)
      wp == WellPosed(Dx, Dy, s)
      wpdev == WellPosed(Dx, Dy, 1)           \* what the library tests
      known == {"k:feedback-feedthrough"}
      G == ev.out.g
  IN If(ev.x = ev.x2 /\ ev.y = ev.y2, "operands-changed") \cup
     IF ev.out.t = "err"
     THEN IF DtClash(X, Y) THEN If(ev.out.e = "ValueError", "dt-error-class")
          ELSE IF ~fits \/ (fits /\ ~wp) THEN If(ev.out.e = "ValueError", "error-class")
          ELSE IF both /\ ~wpdev /\ ev.out.e = "ValueError" THEN known
          ELSE {"refused-valid"}
     ELSE IF DtClash(X, Y) THEN {"accepted-dt"}
     ELSE IF ~fits THEN {"accepted-invalid"}
     ELSE IF ~wp THEN IF both THEN LET v == ModelViol(G, r, ds, Tol5) IN IF v = {} THEN known ELSE v
                      ELSE {"accepted-invalid"}
     ELSE LET v == ModelViol(G, r, es, Tol5)
          IN IF v = {"value"} /\ both /\ ModelViol(G, r, ds, Tol5) = {} THEN known ELSE v

DcViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      s == DcPoint(X.dt)
      G == ev.out.g
      ok(i, j) == LET e == EntryAt(px, i, j, s)
                  IN IF e = <<>> THEN ~NIsNum(G.v.e[i][j])
                     ELSE NIsNum(G.v.e[i][j]) /\ CloseN(NParse(G.v.e[i][j]), e[1], Tol5)
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE IF G.k # "A" \/ G.p # X.p \/ G.m # X.m THEN {"shape"}
     ELSE If(\A i \in 1..X.p, j \in 1..X.m : ok(i, j), "value")

(* minimal realization *)
TransferDegOK(G, px) ==
  \A i \in 1..G.p, j \in 1..G.m :
     \/ PTriple(px.num[i][j]) \/ PTriple(px.den[i][j])
     \/ Len(PTrim(PParse(G.den[i][j]))) = Len(EntryFrac(px, i, j)[2])
MinrealViol(ev) ==
  LET X == ev.x
      px == Parsed(X)
      G == ev.out.g
      r == [k |-> X.k, p |-> X.p, m |-> X.m, dt |-> X.dt]
      v == ModelViol(G, r, AtSamples(px), Tol4)
  IN If(ev.x = ev.x2, "operands-changed") \cup
     IF ev.out.t = "err" THEN {"refused-valid"}
     ELSE v \cup
          IF v \cap {"not-a-model", "malformed", "kind", "shape"} # {} THEN {}
          ELSE IF X.k = "S" THEN If(G.n = MinOrder(px), "order") ELSE If(TransferDegOK(G, px), "order")
=============================================================================
