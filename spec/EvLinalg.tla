------------------------------ MODULE EvLinalg ------------------------------
(***************************************************************************)
(* Judging recorded calls of the matrix and polynomial functions.          *)
(***************************************************************************)
EXTENDS Linalg, EvModels
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Unchanged(ev) == If(ev.args = ev.args2, "operands-changed")
(* the call has to succeed: v(result) is the set of failed clauses *)
Succeeds(ev, v(_)) ==
  Unchanged(ev) \cup IF ev.out.t = "err" THEN {"refused-valid"}
                     ELSE IF ev.out.g.k = "X" THEN {"malformed"} ELSE v(ev.out.g)
Refused(ev) == Unchanged(ev) \cup If(ev.out.t = "err", "accepted-invalid")
Mats(ev) == SEval([q \in DOMAIN ev.args |-> MParse(ev.args[q])])
AllNum(s) == \A q \in DOMAIN s : MIsNum(s[q])

----------------------------------------------------------------------------
(* staircase: args A, B, C; result A, B, C, T *)
Similar(A, B, C, g, tol) ==
  LET a == g[1]
      b == g[2]
      c == g[3]
      T == g[4]
      sc == NAdd(N1, NMax(MMax(A), NMax(MMax(B), MMax(C))))
      z(X, Y) == X.r = Y.r /\ X.c = Y.c /\ NLe(MDist(X, Y), NMul(tol, sc))
  IN /\ MShape(T) = MShape(A) /\ MShape(a) = MShape(A) /\ MShape(b) = MShape(B) /\ MShape(c) = MShape(C)
     /\ z(MMul(A, T), MMul(T, a)) /\ z(B, MMul(T, b)) /\ z(MMul(C, T), c)
Oriented(a, b, c, form, inv) ==      \* <<A, B>> read so that the pattern is the controllable one
  LET x == IF form = "c" THEN a ELSE MTrans(a)
      y == IF form = "c" THEN b ELSE MTrans(c)
  IN IF inv THEN <<FlipBoth(x), FlipRows(y)>> ELSE <<x, y>>
StairViol(ev) ==
  LET M == Mats(ev)
      A == M[1]
      B == M[2]
      C == M[3]
      v(g) == IF ~AllNum(g.m) \/ Len(g.m) # 4 THEN {"malformed"}
              ELSE LET m == SEval([q \in 1..4 |-> MParse(g.m[q])])
                       o == Oriented(m[1], m[2], m[3], ev.form, ev.inv)
                       i == IF ev.form = "c" THEN <<A, B>> ELSE <<MTrans(A), MTrans(C)>>
                   IN IF ~Similar(A, B, C, m, Tol8) THEN {"similarity"}
                      ELSE If(Orthogonal(m[4], Tol8), "orthogonal")
                           \cup If(StairPattern(i[1], i[2], o[1], o[2], Tol7), "pattern")
  IN Succeeds(ev, v)

(* Hessenberg: args A, B, C, D (D only if a model was given); result a, b, c, d, T (T possibly absent) *)
HessPattern(a, b, tol, sa, sb) ==
  /\ Vanish(a, LAMBDA i, j : i > j + 1, tol, sa)
  /\ Vanish(b, LAMBDA i, j : j = 1 /\ i > 1, tol, sb)
HessViol(ev) ==
  LET M == Mats(ev)
      A == M[1]
      B == M[2]
      C == M[3]
      D == M[4]
      v(g) == IF ev.gain THEN If(g.same, "gain-changed")
              ELSE IF ~AllNum(g.m) THEN {"malformed"}
              ELSE IF g.m[1].r # A.r \/ g.m[2].c # B.c \/ g.m[3].r # C.r THEN {"shape"}
              ELSE LET m == SEval([q \in DOMAIN g.m |-> MParse(g.m[q])])
                       o == Oriented(m[1], m[2], m[3], ev.form, ev.inv)
                       Y == [k |-> "S", p |-> C.r, m |-> B.c, n |-> A.r, a |-> A, b |-> B, c |-> C, d |-> D]
                       H == [k |-> "S", p |-> C.r, m |-> B.c, n |-> A.r, a |-> m[1], b |-> m[2], c |-> m[3],
                             d |-> IF Len(g.d) = 0 THEN D ELSE MParse(g.d[1])]
                   IN If(SameSystem(AtSamples(H), AtSamples(Y), Tol6), "value")
                      \cup If(g.dt = ev.dt, "dt")
                      \cup If(HessPattern(o[1], o[2], Tol7, NAdd(N1, MMax(A)), NAdd(N1, NMax(MMax(B), MMax(C)))), "pattern")
                      \cup IF Len(m) = 3 THEN {}
                           ELSE IF ~Similar(A, B, C, m, Tol8) THEN {"similarity"} ELSE If(Orthogonal(m[4], Tol8), "orthogonal")
  IN Succeeds(ev, v)

----------------------------------------------------------------------------
(* controllability matrix: args A, B; observability matrix: args A, C; result matrix, T, rank *)
KalmanMatViol(ev) ==
  LET M == Mats(ev)
      K == IF ev.side = "c" THEN Ctrb(M[1], M[2]) ELSE Obsv(M[1], M[2])
      r == MRank(K)
      n == M[1].r
      sc == NAdd(N1, MMax(K))
      v(g) == IF ~AllNum(g.m) THEN {"malformed"}
              ELSE LET X == MParse(g.m[1])
                       T == MParse(g.m[2])
                       S == IF ev.side = "c" THEN MMul(MTrans(T), K) ELSE MMul(K, T)
                   IN IF MShape(X) # MShape(K) \/ MShape(T) # <<n, n>> THEN {"shape"}
                      ELSE If(g.r = r, "rank") \cup If(Orthogonal(T, Tol8), "orthogonal")
                           \cup If(ev.side = "c" => Vanish(S, LAMBDA i, j : i > r, Tol8, sc), "compression")
                           \cup If(ev.side = "o" => Vanish(S, LAMBDA i, j : j > r, Tol8, sc), "compression")
                           \cup IF ev.compress
                                THEN If(CloseM(X, S, Tol8), "compressed")
                                ELSE If(CloseM(X, K, Tol9), "value")
  IN Succeeds(ev, v)
KalmanTestViol(ev) ==
  LET M == Mats(ev)
      K == IF ev.side = "c" THEN Ctrb(M[1], M[2]) ELSE Obsv(M[1], M[2])
  IN Succeeds(ev, LAMBDA g : If(g.b = (MRank(K) = M[1].r), "answer"))

(* decomposition: args A, B, C, D; result a, b, c, d (and T) *)
KalmanDecViol(ev) ==
  LET M == Mats(ev)
      A == M[1]
      B == M[2]
      C == M[3]
      Y == [k |-> "S", p |-> C.r, m |-> B.c, n |-> A.r, a |-> A, b |-> B, c |-> C, d |-> M[4]]
      r == MRank(Ctrb(A, B))
      o == MinOrder(Y)
      sa == NAdd(N1, MMax(A))
      sb == NAdd(N1, MMax(B))
      sc == NAdd(N1, MMax(C))
      v(g) == IF ~AllNum(g.m) THEN {"malformed"}
              ELSE IF MShape(g.m[1]) # MShape(A) \/ MShape(g.m[2]) # MShape(B) \/ MShape(g.m[3]) # MShape(C) THEN {"shape"}
              ELSE LET m == SEval([q \in DOMAIN g.m |-> MParse(g.m[q])])
                       H == [Y EXCEPT !.a = m[1], !.b = m[2], !.c = m[3], !.d = m[4]]
                   IN If(SameSystem(AtSamples(H), AtSamples(Y), Tol6), "value")
                      \cup If(g.dt = ev.dt, "dt")
                      \cup If(Vanish(m[2], LAMBDA i, j : i > r, Tol7, sb)
                              /\ Vanish(m[1], LAMBDA i, j : i > r /\ j <= r, Tol7, sa), "uncontrollable")
                      \cup If(Vanish(m[3], LAMBDA i, j : j > o /\ j <= r, Tol7, sc)
                              /\ Vanish(m[1], LAMBDA i, j : i <= o /\ j > o /\ j <= r, Tol7, sa), "unobservable")
                      \cup IF Len(m) < 5 THEN {}
                           ELSE If(Similar(A, B, C, <<m[1], m[2], m[3], m[5]>>, Tol7), "similarity")
  IN IF ev.gain THEN Succeeds(ev, LAMBDA g : If(g.same, "gain-changed"))
     ELSE IF r = 0 THEN Unchanged(ev) \cup (IF ev.out.t = "err" THEN {} ELSE v(ev.out.g))
     ELSE Succeeds(ev, v)

----------------------------------------------------------------------------
(* haroldsvd: args A; result U, S, V, rank (-1 when not asked) *)
SvdViol(ev) ==
  LET A == Mats(ev)[1]
      v(g) == IF ~AllNum(g.m) THEN {"malformed"}
              ELSE LET m == SEval([q \in 1..3 |-> MParse(g.m[q])])
                       S == m[2]
                       k == IF A.r < A.c THEN A.r ELSE A.c
                   IN IF MShape(m[1]) # <<A.r, A.r>> \/ MShape(m[3]) # <<A.c, A.c>> \/ MShape(S) # <<A.r, A.c>> THEN {"shape"}
                      ELSE If(Orthogonal(m[1], Tol9) /\ Orthogonal(m[3], Tol9), "orthogonal")
                           \cup If(NLe(MDist(MMul(m[1], MMul(S, m[3])), A), NMul(Tol9, MMax(A))), "value")
                           \cup If(/\ \A i \in 1..S.r, j \in 1..S.c : i # j => NIsZero(S.e[i][j])
                                   /\ \A i \in 1..k : NIsReal(S.e[i][i]) /\ NLe(N0, S.e[i][i])
                                   /\ \A i \in 1..(k - 1) : NLe(S.e[i + 1][i + 1], S.e[i][i]), "singular-values")
                           \cup If(ev.rank => g.r = MRank(A), "rank")
  IN Succeeds(ev, v)

(* haroldker: args N; the null space of N (right) or of its conjugate transpose (left) *)
KerViol(ev) ==
  LET N == Mats(ev)[1]
      A == IF ev.side = "right" THEN N ELSE MCTrans(N)
      dim == A.c - MRank(A)
      v(g) == IF ~AllNum(g.m) THEN {"malformed"}
              ELSE LET K == MParse(g.m[1])
                       G == MMul(MCTrans(K), K)
                   IN IF dim = 0 THEN If(MShape(K) = <<A.c, 1>> /\ MIsZero(K), "trivial")
                      ELSE IF MShape(K) # <<A.c, dim>> THEN {"dimension"}
                      ELSE If(NLe(MMax(MMul(A, K)), NMul(Tol9, MMax(A))), "null")
                           \cup If(\A i \in 1..dim : CloseN(G.e[i][i], N1, Tol9), "unit")
                           \cup If(NLe(Tol6, NMag(MDet(G))), "independent")
  IN Succeeds(ev, v)

(* e_i: width, index, output *)
EiViol(ev) ==
  LET s == Sel(ev.ix, ev.w)
      k == IF s = <<>> THEN 0 ELSE Len(s[1])
      E == MCols(MEye(ev.w), IF s = <<>> THEN <<>> ELSE s[1])
  IN IF s = <<>> THEN Refused(ev)
     ELSE Succeeds(ev, LAMBDA g : IF MShape(g.m[1]) # (IF ev.o = "c" THEN <<ev.w, k>> ELSE <<k, ev.w>>) THEN {"shape"}
                                  ELSE If(k = 0 \/ MParse(g.m[1]) = (IF ev.o = "c" THEN E ELSE MTrans(E)), "value"))

(* matrix_slice: args M; corner shape z x w at the corner *)
SliceViol(ev) ==
  LET M == Mats(ev)[1]
      p == IF ev.corner \in {"nw", "ne"} THEN ev.z ELSE M.r - ev.z
      q == IF ev.corner \in {"nw", "sw"} THEN ev.w ELSE M.c - ev.w
      rows(a, b) == SEval([x \in 1..(b - a) |-> a + x])
      part(r, c) == MSel(M, r, c)
      U == rows(0, p)
      D == rows(p, M.r)
      L == rows(0, q)
      R == rows(q, M.c)
      E == << part(U, L), part(U, R), part(D, L), part(D, R) >>
      v(g) == If(\A x \in 1..4 : MShape(g.m[x]) = MShape(E[x]), "shape")
              \cup If(\A x \in 1..4 : (MShape(g.m[x]) = MShape(E[x]) /\ E[x].r > 0 /\ E[x].c > 0) => MParse(g.m[x]) = E[x], "value")
  IN Succeeds(ev, v)

(* pair_complex_numbers: args one row of numbers; ev.ok says whether conjugates match up *)
SameNumbers(xs, ys, tol) ==      \* as multisets, up to tol: equal counts around every member
  /\ Len(xs) = Len(ys)
  /\ \A q \in DOMAIN xs :
       Cardinality({ k \in DOMAIN xs : NLe(NMag(NSub(xs[k], xs[q])), tol) }) =
       Cardinality({ k \in DOMAIN ys : NLe(NMag(NSub(ys[k], xs[q])), tol) })
Pairable(xs) == \A q \in DOMAIN xs :
  Cardinality({k \in DOMAIN xs : xs[k] = xs[q]}) = Cardinality({k \in DOMAIN xs : xs[k] = NConj(xs[q])})
PairViol(ev) ==
  LET xs == Mats(ev)[1].e[1]
      nr == Cardinality({ q \in DOMAIN xs : NIsReal(xs[q]) })
      n == Len(xs)
      v(g) == IF Len(g.v) # n THEN {"multiset"}
              ELSE LET ys == PParse(g.v)
                       off == IF ev.rf THEN 0 ELSE n - nr       \* where the reals start
                       co == IF ev.rf THEN nr ELSE 0            \* where the pairs start
                   IN If(SameNumbers(xs, ys, Tol6), "multiset")
                      \cup If(\A q \in 1..nr : NIsReal(ys[off + q]) /\ (q > 1 => NLe(ys[off + q - 1], ys[off + q])), "reals")
                      \cup If(\A q \in 1..((n - nr) \div 2) :
                                LET a == ys[co + 2*q - 1]
                                    b == ys[co + 2*q]
                                IN a = NConj(b) /\ ~NIsReal(a) /\ (NLt(N0, NIm(a)) <=> ev.pf), "pairs")
  IN IF n > 0 /\ ~Pairable(xs) THEN Refused(ev) ELSE Succeeds(ev, v)

----------------------------------------------------------------------------
IndicesViol(ev) ==
  LET M == Mats(ev)
      c == CtrbCounts(M[1], M[2])
      v(g) == IF Len(g.i) # M[2].c THEN {"shape"}
              ELSE If(\A k \in DOMAIN c : IndexCount(g.i, k) = c[k], "indices")
                   \cup If(IndexCount(g.i, Len(c) + 1) = 0, "indices")
  IN Succeeds(ev, v)

(* cancellation distance: args F, G; result upper2, upper1, lower0, point, radius *)
SigmaAtLeast(M, s, tol) ==      \* smallest singular value of the n x k matrix M (n <= k) is >= s - tol
  LET t == NSub(s, tol)
      H == MSub(MMul(M, MCTrans(M)), MScale(NMul(t, t), MEye(M.r)))
  IN NLe(t, N0) \/ \A k \in 1..M.r : NLe(N0, NRe(MDet(MSel(H, Range1(k), Range1(k)))))
SigmaAtMost(M, s, tol) ==      \* not (all leading minors of M M* - (s + tol)^2 positive)
  LET t == NAdd(s, tol)
      H == MSub(MMul(M, MCTrans(M)), MScale(NMul(t, t), MEye(M.r)))
  IN ~ \A k \in 1..M.r : NLt(N0, NRe(MDet(MSel(H, Range1(k), Range1(k)))))
CancelViol(ev) ==
  LET M == Mats(ev)
      F == M[1]
      G == M[2]
      P(s) == MHcat(MSub(F, MScale(s, MEye(F.r))), G)
      ctrb == MRank(Ctrb(F, G)) = F.r
      v(g) == IF ~PIsNum(SubSeq(g.v, 1, 4)) THEN {"malformed"}
              ELSE LET x == PParse(IF PIsNum(g.v) THEN g.v ELSE SubSeq(g.v, 1, 4))   \* the radius may be unbounded
                   IN If(SigmaAtLeast(P(x[4]), x[1], Tol7) /\ SigmaAtMost(P(x[4]), x[1], Tol7), "upper-bound")
                      \cup If(NLe(x[1], NAdd(x[2], Tol7)) /\ NLe(x[3], NAdd(x[1], Tol7)) /\ NLe(N0, x[3]), "order")
                      \cup If(Len(x) = 5 => NLe(x[1], NAdd(x[5], Tol7)), "radius")
                      \cup If(\A q \in DOMAIN ev.probe : SigmaAtLeast(P(NParse(ev.probe[q])), x[3], Tol7), "lower-bound")
                      \cup If(~ctrb /\ ~ev.defective => NLe(x[1], Tol5), "uncontrollable")
  IN Succeeds(ev, v)

(* transmission zeros: args A, B, C, D *)
TzerosViol(ev) ==
  LET M == Mats(ev)
      zp == IF MIsZero(M[2]) \/ MIsZero(M[3]) THEN <<N1>> ELSE ZeroPoly(M[1], M[2], M[3], M[4])
      v(g) == IF ~PIsNum(g.v) THEN {"infinite"}
              ELSE LET rs == PParse(g.v)
                   IN IF Len(rs) # Len(zp) - 1 THEN {"count"}
                      ELSE If(RootsAre(rs, zp, IF PTriple(zp) THEN NFrac(1, 100) ELSE Tol4), "value")
  IN Succeeds(ev, v)

(* Lyapunov: args A, Y (and E) *)
LyapViol(ev) ==
  LET M == Mats(ev)
      ua == NParse(ev.ua)
      ue == NParse(ev.ue)
      uy == NParse(ev.uy)
      A == MScale(NDiv(N1, ua), M[1])      \* in the units of the data
      Y == MScale(NDiv(N1, uy), M[2])
      E == IF Len(M) = 3 THEN MScale(NDiv(N1, ue), M[3]) ELSE MEye(A.r)
      ux == NDiv(NMul(IF ev.form = "c" THEN ua ELSE ue, ue), uy)
      fits == A.r = A.c /\ Y.r = Y.c /\ E.r = E.c /\ A.r = Y.r /\ A.r = E.r
      v(g) == IF ~AllNum(g.m) THEN {"not-finite"}
              ELSE LET X == MScale(ux, MParse(g.m[1]))
                       sc == NMul(NAdd(N1, MMax(X)), NMul(NAdd(N1, MMax(A)), NAdd(N1, NMax(MMax(A), MMax(E)))))
                   IN IF MShape(X) # MShape(A) THEN {"shape"}
                      ELSE If(NLe(MMax(LyapRes(A, Y, E, ev.form, X)), NMul(Tol6, NAdd(sc, MMax(Y)))), "residual")
                           \cup If(NLe(MDist(X, MTrans(X)), NMul(Tol6, NAdd(N1, MMax(X)))), "symmetric")
  IN IF ~fits THEN Refused(ev)
     ELSE IF ~LyapUnique(A, E, ev.form) THEN Unchanged(ev)
     ELSE Succeeds(ev, v)

----------------------------------------------------------------------------
(* polynomials: ev.ps, a sequence of coefficient sequences *)
Polys(ev) == SEval([q \in DOMAIN ev.ps |-> PTrim(PParse(ev.ps[q]))])
UnchangedP(ev) == If(ev.ps = ev.ps2, "operands-changed")
SucceedsP(ev, v(_)) ==
  UnchangedP(ev) \cup IF ev.out.t = "err" THEN {"refused-valid"}
                      ELSE IF ev.out.g.k = "X" THEN {"malformed"} ELSE v(ev.out.g)
GcdViol(ev) ==
  LET ps == Polys(ev)
      e == GcdAll(ps)
      v(g) == IF ~PIsNum(g.v) THEN {"malformed"}
              ELSE LET p == PTrim(PParse(g.v))
                   IN IF Len(p) # Len(e) THEN {"degree"}
                      ELSE If(Cardinality({ q \in DOMAIN ps : ps[q] # <<>> }) <= 1 \/ Head(p) = N1, "monic") \cup If(CloseP(PUnit(PMonic(p), NParse(ev.unit)), PUnit(e, NParse(ev.unit)), Tol5), "value")
  IN SucceedsP(ev, v)
LcmViol(ev) ==
  LET ps == Polys(ev)
      e == LcmAll(ps)
      close(x) == CloseP(PUnit(x, NParse(ev.unit)), PUnit(e, NParse(ev.unit)), Tol5)
      v(g) == IF ~PIsNum(g.v) \/ \E q \in DOMAIN g.mu : ~PIsNum(g.mu[q]) THEN {"malformed"}
              ELSE LET p == PTrim(PParse(g.v))
                   IN IF Len(p) # Len(e) THEN {"degree"}
                      ELSE If(Head(p) = N1, "monic") \cup If(close(p), "value")
                           \cup IF ~ev.mults THEN {}
                                ELSE If(Len(g.mu) = Len(ps) /\ \A q \in DOMAIN ps :
                                          close(PMul(PTrim(PParse(g.mu[q])), PMonic(ps[q]))), "multipliers")
  IN SucceedsP(ev, v)
MaxLen(ps) == CHOOSE n \in { Len(ps[q]) : q \in DOMAIN ps } : \A q \in DOMAIN ps : Len(ps[q]) <= n
RECURSIVE SumLen(_)
SumLen(ps) == IF ps = <<>> THEN 1 ELSE Len(Head(ps)) - 1 + SumLen(Tail(ps))
PolyOpViol(ev) ==
  LET ps == Polys(ev)
      e == IF ev.op = "add" THEN SeqFold(PAdd, <<>>, ps) ELSE SeqFold(PMul, <<N1>>, ps)
      full == IF ev.op = "add" THEN MaxLen(ev.ps) ELSE SumLen(ev.ps)
      short == IF ev.op = "add" THEN MaxLen(ps) ELSE SumLen(ps)
      v(g) == IF ~PIsNum(g.v) THEN {"malformed"}
              ELSE If(CloseP(PTrim(PParse(g.v)), e, Tol9), "value")
                   \cup If(IF ev.trim THEN Len(g.v) <= (IF short < 1 THEN 1 ELSE short)
                           ELSE Len(g.v) = full \/ (e = <<>> /\ ev.op = "mul"), "trim")
  IN SucceedsP(ev, v)
DivViol(ev) ==
  LET ps == Polys(ev)
      e == PDivMod(ps[1], ps[2])
      v(g) == IF ~PIsNum(g.q) \/ ~PIsNum(g.r) THEN {"malformed"}
              ELSE LET q == PTrim(PParse(g.q))
                       r == PTrim(PParse(g.r))
                   IN If(CloseP(q, e[1], Tol9), "value") \cup If(CloseP(r, e[2], Tol9), "value")
                      \cup If(Len(r) < Len(ps[2]), "remainder-degree")
  IN IF ps[2] = <<>> THEN UnchangedP(ev) \cup If(ev.out.t = "err", "accepted-invalid") ELSE SucceedsP(ev, v)
FromRootsViol(ev) ==      \* ev.ps[1]: roots
  LET e == PFromRoots(PParse(ev.ps[1]))
  IN SucceedsP(ev, LAMBDA g : IF ~PIsNum(g.v) \/ Len(g.v) # Len(e) THEN {"degree"} ELSE If(CloseP(PParse(g.v), e, Tol9), "value"))
CompanionViol(ev) ==
  LET p == PMonic(Polys(ev)[1])
      v(g) == IF Len(p) <= 1 THEN If(g.size = 0, "shape")
              ELSE IF ~MIsNum(g.m[1]) \/ MShape(g.m[1]) # <<Len(p) - 1, Len(p) - 1>> THEN {"shape"}
              ELSE If(CloseM(MParse(g.m[1]), Companion(p), Tol9), "value")
  IN IF p = <<>> THEN UnchangedP(ev) ELSE SucceedsP(ev, v)
=============================================================================
