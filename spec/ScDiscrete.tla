----------------------------- MODULE ScDiscrete -----------------------------
(***************************************************************************)
(* Call space of discretize / undiscretize, histories of the attributes,   *)
(* and the laws of the rules themselves, checked by TLC on a grid.         *)
(***************************************************************************)
EXTENDS Discrete, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Shapes, Dts, Depth, Rich

Flav(k, g) == IF g THEN {"gen"}
              ELSE IF k = "T" THEN {"gen", "strict", "biproper", "integ", "multi", "zero"}
              ELSE {"gen", "strict", "integ", "jordan", "nonmin", "unctrb"}
Class(dts) == UNION { { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d, fl |-> f] : s \in Shapes, d \in dts, f \in Flav(k, g) }
                 : k \in {"S", "T"}, g \in BOOLEAN }

Opts(method) == CASE Family(method) = "tustin" -> { [pw |-> w, q |-> "none"] : w \in {"zero", "faint", "low", "mid", "high"} }
                  [] Family(method) = "lft" -> { [pw |-> "zero", q |-> w] : w \in {"tustin", "forward", "backward", "asym", "neg"} }
                  [] OTHER -> { [pw |-> "zero", q |-> "none"] }
Ways(ms) == UNION { { [method |-> m, pw |-> o.pw, q |-> o.q] : o \in Opts(m) } : m \in ms }

Substs == Known \ {"zoh", "foh"}
Disc(ms) == { [fn |-> "disc", x |-> c, w |-> w, T |-> d] :
              c \in Class({"null"}), w \in Ways(ms), d \in Dts }
(* how: all repeated explicitly / remembered by the model / default method *)
Round(u) == { [fn |-> "round", x |-> c, w |-> w, T |-> d, how |-> h] :
              c \in { y \in Class({"null"}) : ~y.gain \/ y.fl = "gen" }, w \in Ways(Known), d \in Dts, h \in {"explicit", "remembered"} }
RoundOK(u) == { s \in Round(0) : Rich \/ s.w.method \in {"tustin", "forward euler", "<<", "lft", "zoh", "foh", ">>"} }
Back(u) == { [fn |-> "back", x |-> c, w |-> w, default |-> d] :
              c \in Class(Dts), w \in Ways(Substs), d \in BOOLEAN }
(* made by one rule, converted back by another one given explicitly, in full or (same method) by its option only *)
Swap(u) == { [fn |-> "swap", x |-> c, w |-> w, w2 |-> w2, T |-> d, brief |-> b] :
              c \in { y \in Class({"null"}) : ~y.gain /\ y.fl \in {"gen", "biproper"} /\ y.p = y.m },
              w \in Ways({"tustin", "lft", "zoh", ">>"}), w2 \in Ways({"tustin", "lft", "forward euler", "<<"}), d \in Dts, b \in BOOLEAN }
SwapOK(u) == { s \in Swap(0) : /\ (s.brief => s.w.method = s.w2.method /\ (s.w2.pw # "zero" \/ s.w2.q # "none"))
                               /\ (Rich \/ s.w.q \in {"none", "tustin", "asym"}) }
BackOK(u) == { s \in Back(0) : s.default => (s.w.method = "tustin" /\ s.w.pw = "zero") }

(* attribute histories; values are named, the harness turns them into numbers *)
Ops == { [op |-> "disc", method |-> m, dt |-> d, pw |-> "zero", q |-> "none"] : m \in Known \ {"lft"}, d \in {"a", "b"} } \cup
       { [op |-> "disc", method |-> "bilinear", dt |-> "a", pw |-> p, q |-> "none"] : p \in {"mid", "nyquist", "over", "negative"} } \cup
       { [op |-> "disc", method |-> "lft", dt |-> "a", pw |-> "zero", q |-> q] : q \in {"good", "none", "wide", "flat"} } \cup
       { [op |-> "disc", method |-> "zoh", dt |-> d, pw |-> "zero", q |-> "none"] : d \in {"zero", "negative", "nan", "inf", "none"} } \cup
       { [op |-> "disc", method |-> "magic", dt |-> "a", pw |-> "zero", q |-> "none"] } \cup
       { [op |-> "undisc"] } \cup
       { [op |-> "setdt", v |-> v] : v \in {"a", "b", "none", "zero", "negative", "nan", "inf", "text"} } \cup
       { [op |-> "setdw", v |-> v] : v \in {"tustin", "trapezoidal", "lft", "foh", "<<", "magic", "null"} } \cup
       { [op |-> "setfr", v |-> v] : v \in {"zero", "low", "mid", "nyquist", "over", "negative", "nan"} } \cup
       { [op |-> "setq", v |-> v] : v \in {"good", "other", "wide", "flat", "nan"} }
Core == { o \in Ops : \/ o.op = "undisc"
                      \/ o.op = "disc" /\ o.dt = "a" /\ (o.method = "zoh" \/ o.pw = "mid" \/ o.q = "good")
                      \/ o.op = "setdt" /\ o.v \in {"b", "none", "nan"}
                      \/ o.op = "setdw" /\ o.v \in {"tustin", "lft", "foh", "magic"}
                      \/ o.op = "setfr" /\ o.v \in {"mid", "over"}
                      \/ o.op = "setq" /\ o.v \in {"good", "wide"} }
Heads(n) == [1..n -> Core]
Hist(u) == { [fn |-> "book", k |-> k, gain |-> g, siso |-> TRUE, dt |-> d, ops |-> Append(h, o)] :
             k \in {"S", "T"}, g \in BOOLEAN, d \in {"null", "a"}, h \in UNION { Heads(n) : n \in 0..(Depth - 1) }, o \in Ops }

Calls == (IF "disc" \in Fns THEN Disc(Substs) ELSE {}) \cup
         (IF "hold" \in Fns THEN Disc({"zoh", "foh"}) ELSE {}) \cup
         (IF "round" \in Fns THEN RoundOK(0) \cup BackOK(0) \cup SwapOK(0) ELSE {}) \cup
         (IF "book" \in Fns THEN Hist(0) ELSE {})

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Calls))

----------------------------------------------------------------------------
(* Laws of the rules on a grid of points, periods and frequencies *)
VARIABLES fam, T, f, s
Pts == { NCplx(NFrac(a, 2), NFrac(b, 3)) : a \in -4..4, b \in -4..4 }
Init == /\ fam \in {"tustin", "forward", "backward"} /\ T \in {NFrac(1, 4), NInt(1), NInt(2)}
        /\ s \in Pts
        /\ f \in IF fam = "tustin" THEN {N0, NDiv(NFrac(1, 7), T), NDiv(NFrac(3, 7), T)} ELSE {N0}
Next == UNCHANGED <<fam, T, f, s>>
Spec == Init /\ [][Next]_<<fam, T, f, s>>
q == Subst(fam, T, f, NoQ)
z == ZOf(q, s)
Tiny == NFrac(1, 1000000000)
(* the two directions are inverse to each other *)
BothWays == z # <<>> => (SOf(q, z[1]) = <<s>> \/ NLe(NMag(NSub(SOf(q, z[1])[1], s)), Tiny))
(* DC goes to DC *)
DcToDc == ZOf(q, N0) = <<N1>>
(* stability: tustin exactly; backward keeps stable points stable; forward never stabilises *)
Stable(x) == NLt(NRe(x), N0)
Inside(x) == NLt(NAbs2(x), N1)
Stability == z # <<>> => CASE fam = "tustin" -> Stable(s) <=> Inside(z[1])
                           [] fam = "backward" -> Stable(s) => Inside(z[1])
                           [] fam = "forward" -> Inside(z[1]) => Stable(s)
(* prewarping is exact at its frequency *)
Warp == (fam = "tustin" /\ ~NIsZero(f)) =>
          LET w == NMul(N2, NMul(Pi, f))
              p == SOf(q, NExp(NCplx(N0, NMul(w, T))))
          IN p # <<>> /\ NLe(NMag(NSub(p[1], NCplx(N0, w))), Tiny)
(* holds of x' = s x + u, y = x: semigroup in the period, and exact for an integrator *)
One(x) == [r |-> 1, c |-> 1, e |-> << <<x>> >>]
HoldLaw == LET h == Hold(One(s), One(N1), T)
               k == Hold(One(s), One(N1), NMul(N2, T))
           IN /\ NLe(MDist(MMul(h.phi, h.phi), k.phi), NMul(Tiny, NAdd(N1, MMax(k.phi))))
              /\ NLe(MDist(MAdd(MMul(h.phi, h.g1), h.g1), k.g1), NMul(Tiny, NAdd(N1, MMax(k.g1))))
              /\ NIsZero(s) => NLe(MDist(h.g1, One(T)), Tiny) /\ NLe(MDist(h.g2, One(NDiv(T, N2))), Tiny)
=============================================================================
