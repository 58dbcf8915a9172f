------------------------------ MODULE ScLinalg ------------------------------
(***************************************************************************)
(* Call space of the matrix and polynomial functions.                      *)
(***************************************************************************)
EXTENDS Linalg, Json, IOUtils, TLC, SequencesExt, FiniteSets, Integers, Sequences

CONSTANTS Fns, Big

N4 == IF Big THEN 1..5 ELSE 1..4
Flav == {"gen", "unctrb", "unobs", "nonmin", "zerob", "zeroc", "jordan", "iso", "defb", "defc", "full"}
Triples(u) == { [n |-> n, p |-> s[1], m |-> s[2], fl |-> f] :
                n \in N4, s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}, f \in Flav }
(* longer chains, one input or one output *)
Long(u) == { [n |-> n, p |-> s[1], m |-> s[2], fl |-> f] :
             n \in 6..(IF Big THEN 8 ELSE 7), s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>}, f \in {"chain", "unctrb", "unobs"} }
Stair(u) == { [fn |-> "stair", x |-> t, form |-> f, inv |-> i] : t \in Triples(0), f \in {"c", "o"}, i \in BOOLEAN }
Hess(u) == { [fn |-> "hess", x |-> t, form |-> f, inv |-> i, T |-> c, out |-> o, arg |-> a] :
             t \in { q \in Triples(0) : q.fl \in {"gen", "nonmin", "defb", "zeroc"} },
             f \in {"c", "o"}, i \in BOOLEAN, c \in BOOLEAN,
             o \in {"system", "matrices"}, a \in {"tuple", "state", "transfer"} }
           \cup { [fn |-> "hess", x |-> [n |-> 0, p |-> p, m |-> m, fl |-> "gain"], form |-> f, inv |-> FALSE, T |-> FALSE,
                   out |-> "system", arg |-> a] : p \in 1..2, m \in 1..2, f \in {"c", "o"}, a \in {"state", "transfer"} }
KMat(u) == { [fn |-> "kmat", x |-> t, side |-> s, compress |-> c, arg |-> a] :
             t \in Triples(0) \cup Long(0), s \in {"c", "o"}, c \in BOOLEAN, a \in {"tuple", "state"} }
KTest(u) == { [fn |-> "ktest", x |-> t, side |-> s, arg |-> a] : t \in Triples(0) \cup Long(0), s \in {"c", "o"}, a \in {"tuple", "state"} }
KDec(u) == { [fn |-> "kdec", x |-> t, T |-> c, out |-> o, dt |-> d] :
             t \in Triples(0) \cup Long(0), c \in BOOLEAN, o \in {"system", "matrices"}, d \in {"null", "dt1"} }
           \cup { [fn |-> "kdec", x |-> [n |-> 0, p |-> 2, m |-> 2, fl |-> "gain"], T |-> FALSE, out |-> "system", dt |-> d] : d \in {"null", "dt1"} }
CIdx(u) == { [fn |-> "cidx", x |-> t, size |-> z] : t \in Triples(0), z \in {"unit", "tiny", "huge"} }      \* size of B
Cancel(u) == { [fn |-> "cancel", x |-> t] : t \in Triples(0) }
Tz(u) == { [fn |-> "tzeros", x |-> t, feed |-> f] : t \in Triples(0), f \in {"zero", "full", "def"} }

(* matrices by shape and rank *)
Ranked(cap) == UNION { { [r |-> r, c |-> c, k |-> k, cx |-> x] : k \in 0..(IF r < c THEN r ELSE c), x \in BOOLEAN } : r \in 1..cap, c \in 1..cap }
Sized == {"unit", "tiny", "huge", "rows"}          \* rows: one row is much smaller than the others
Svd(u) == { [fn |-> "svd", x |-> q, rank |-> b, sz |-> z] : q \in Ranked(4), b \in BOOLEAN, z \in Sized }
Ker(u) == { [fn |-> "ker", x |-> q, side |-> s, sz |-> z] : q \in Ranked(4), s \in {"left", "right"}, z \in Sized }

None == [none |-> TRUE, v |-> 0]
V(x) == [none |-> FALSE, v |-> x]
Forms(n) ==
  { [t |-> "int", i |-> i] : i \in (-n - 1)..n } \cup
  { [t |-> "list", l |-> l] : l \in { <<0>>, <<n - 1, 0>>, <<-1>>, <<0, -1, 0>>, <<n>>, [q \in 1..n |-> n - q] } } \cup
  { [t |-> "slice", a |-> a, b |-> b, s |-> s] : a \in {None, V(0), V(1), V(-1)}, b \in {None, V(1), V(-1), V(n + 1)}, s \in {None, V(2), V(-1)} }
Ei(u) == UNION { { [fn |-> "ei", w |-> n, ix |-> f, o |-> o] : f \in Forms(n), o \in {"c", "r"} } : n \in 1..4 }
MSl(u) == UNION { { [fn |-> "mslice", r |-> r, c |-> c, z |-> z, w |-> w, corner |-> k] : z \in 0..r, w \in 0..c, k \in {"nw", "ne", "sw", "se"} }
                  : r \in 1..3, c \in 1..3 }
(* reals, pairs, a pattern of coincidences, and an optional spoiler *)
Pair(u) == { [fn |-> "pair", nr |-> r, np |-> p, same |-> s, bad |-> b, pf |-> f, rf |-> g] :
             r \in 0..3, p \in 0..3, s \in {"no", "re", "im", "all"}, b \in {"no", "odd", "re", "im"}, f \in BOOLEAN, g \in BOOLEAN }

(* eigenvalue block patterns: compositions of n into ones and twos *)
RECURSIVE Comp(_)
Comp(n) == IF n = 0 THEN { <<>> } ELSE IF n = 1 THEN { <<1>> }
           ELSE { <<1>> \o s : s \in Comp(n - 1) } \cup { <<2>> \o s : s \in Comp(n - 2) }
Lyap(u) == UNION { { [fn |-> "lyap", blocks |-> b, form |-> f, gen |-> g, data |-> d, sing |-> s] :
                     b \in Comp(n), f \in {"c", "d"}, g \in BOOLEAN, d \in {"float", "int", "inty"}, s \in BOOLEAN } : n \in 1..(IF Big THEN 6 ELSE 5) }
           (* the data in very small or large units: of A, of E and of Y (ones of A and E are tied in discrete time) *)
           \cup { q \in UNION { { [fn |-> "lyap", blocks |-> b, form |-> f, gen |-> g, data |-> "float", sing |-> FALSE, ua |-> x, ue |-> y, uy |-> z] :
                     b \in Comp(n), f \in {"c", "d"}, g \in BOOLEAN, x \in {-45, 0, 30}, y \in {-45, 0, 30}, z \in {-30, 0, 20} } : n \in 2..4 } :
                   (q.ua # 0 \/ q.ue # 0 \/ q.uy # 0) /\ (~q.gen => q.ue = 0) /\ (q.form = "d" => q.ua = q.ue) }
           \cup { [fn |-> "lyapbad", which |-> w, form |-> f] : w \in 1..6, f \in {"c", "d"} }

(* divisors and multiples: exponents of two linear and one quadratic factor *)
Exps(k) == { <<a, b, c>> : a \in 0..k, b \in 0..k, c \in 0..(IF k > 1 THEN 1 ELSE k) }
Lead == {0, 1}
Div(fn) == { [fn |-> fn, e |-> <<x, y>>, lead |-> l, scale |-> s] : x \in Exps(2), y \in Exps(2), l \in Lead, s \in BOOLEAN }
      \cup { [fn |-> fn, e |-> <<x, y, z>>, lead |-> 0, scale |-> s] : x \in Exps(1), y \in Exps(1), z \in Exps(1), s \in BOOLEAN }
      \cup { [fn |-> fn, e |-> <<x>>, lead |-> l, scale |-> s] : x \in Exps(2), l \in Lead, s \in BOOLEAN }
      (* the same with all roots smaller or larger by a factor *)
      \cup { [fn |-> fn, e |-> <<x, y>>, lead |-> 0, scale |-> s, size |-> z] : x \in Exps(1), y \in Exps(1), s \in BOOLEAN, z \in {"tiny", "huge"} }
(* the zero polynomial (no exponents) among the arguments *)
GcdZero(u) == { [fn |-> "gcd", e |-> s, lead |-> l, scale |-> c] :
                s \in { <<x, <<>>>> : x \in Exps(2) } \cup { <<<<>>, x>> : x \in Exps(2) }
                       \cup { <<x, <<>>, y>> : x \in Exps(1), y \in Exps(1) } \cup { <<<<>>, <<>>>> },
                l \in Lead, c \in BOOLEAN }
(* coefficient arrays by length and number of leading zeros (all zeros included) *)
Arr == { <<n, z>> \in (1..4) \X (0..4) : z <= n }
PolyOp(op) == { [fn |-> "polyop", op |-> op, a |-> s, trim |-> t, lists |-> l] :
                s \in { <<x>> : x \in Arr } \cup { <<x, y>> : x \in Arr, y \in Arr }
                       \cup { <<x, y, w>> : x \in {<<1, 0>>, <<3, 1>>, <<2, 2>>}, y \in Arr, w \in {<<2, 0>>, <<4, 2>>, <<1, 1>>} },
                t \in BOOLEAN, l \in BOOLEAN }
PDiv(u) == { [fn |-> "polydiv", a |-> <<x, y>>, exact |-> e] : x \in Arr \cup {<<6, 0>>, <<5, 1>>}, y \in Arr, e \in BOOLEAN }
FromR(u) == { [fn |-> "fromroots", nr |-> r, np |-> p] : r \in 0..4, p \in 0..2 }
Compn(u) == { [fn |-> "companion", a |-> x, lists |-> l] : x \in Arr \cup {<<6, 1>>, <<5, 0>>}, l \in BOOLEAN }

Calls == (IF "stair" \in Fns THEN Stair(0) ELSE {}) \cup (IF "hess" \in Fns THEN Hess(0) ELSE {}) \cup
         (IF "kmat" \in Fns THEN KMat(0) \cup KTest(0) ELSE {}) \cup (IF "kdec" \in Fns THEN KDec(0) ELSE {}) \cup
         (IF "cidx" \in Fns THEN CIdx(0) ELSE {}) \cup (IF "cancel" \in Fns THEN Cancel(0) ELSE {}) \cup
         (IF "tzeros" \in Fns THEN Tz(0) ELSE {}) \cup (IF "helpers" \in Fns THEN Svd(0) \cup Ker(0) \cup Ei(0) \cup MSl(0) \cup Pair(0) ELSE {}) \cup
         (IF "lyap" \in Fns THEN Lyap(0) ELSE {}) \cup (IF "gcd" \in Fns THEN Div("gcd") \cup GcdZero(0) ELSE {}) \cup (IF "lcm" \in Fns THEN Div("lcm") ELSE {}) \cup
         (IF "poly" \in Fns THEN PolyOp("add") \cup PolyOp("mul") \cup PDiv(0) \cup FromR(0) \cup Compn(0) ELSE {})

----------------------------------------------------------------------------
(* TLC visits every call; design facts about the definitions used as oracle *)
VARIABLES sc
Init == sc \in Calls
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc

F1 == <<N1, N1>>
F2 == <<N1, NInt(-2)>>
F3 == <<N1, N0, N1>>
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN <<N1>> ELSE PMul(p, PPow(p, k - 1))
OfExp(e) == PMul(PPow(F1, e[1]), PMul(PPow(F2, e[2]), PPow(F3, e[3])))
Fold(e, op(_, _), k) == SeqFold(op, e[1][k], [q \in 1..(Len(e) - 1) |-> e[q + 1][k]])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
(* divisor and multiple computed by polynomial algebra are the minimum and maximum of exponents *)
LatticeSound ==
  sc.fn \in {"gcd", "lcm"} /\ (\A q \in DOMAIN sc.e : sc.e[q] # <<>>) =>
    LET ps == [q \in DOMAIN sc.e |-> OfExp(sc.e[q])]
    IN /\ GcdAll(ps) = OfExp(<<Fold(sc.e, MinI, 1), Fold(sc.e, MinI, 2), Fold(sc.e, MinI, 3)>>)
       /\ LcmAll(ps) = OfExp(<<Fold(sc.e, MaxI, 1), Fold(sc.e, MaxI, 2), Fold(sc.e, MaxI, 3)>>)
(* the four parts of a slice tile the matrix *)
SliceSound == sc.fn = "mslice" => sc.z <= sc.r /\ sc.w <= sc.c
EiSound == sc.fn = "ei" => LET s == Sel(sc.ix, sc.w) IN s # <<>> => \A q \in DOMAIN s[1] : s[1][q] \in 1..sc.w
BlockSound == sc.fn = "lyap" => \A q \in DOMAIN sc.blocks : sc.blocks[q] \in {1, 2}

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
