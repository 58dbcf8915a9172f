---------------------------- MODULE ScWorkspace ----------------------------
(***************************************************************************)
(* Sessions.  TLC explores the machine exhaustively for short sessions and *)
(* checks the design invariants; in simulation mode it produces long       *)
(* random sessions, which the harness replays on the library.              *)
(***************************************************************************)
EXTENDS Workspace, Json, IOUtils, TLC, FiniteSets, Integers, Sequences

CONSTANTS Shapes, Dts, NSlots, Depth, Cap, Kinds, Tell

Fresh(k, s, d, g) == [k |-> k, p |-> s[1], m |-> s[2], dt |-> d, nd |-> -1, n |-> IF g THEN 0 ELSE IF k = "S" THEN 2 ELSE s[1] * s[2]]
Start == { Fresh(k, s, d, g) : k \in {"S", "T"}, s \in Shapes, d \in Dts, g \in BOOLEAN }

VARIABLES ws, log, kind, old      \* old: the session before the last call
vars == <<ws, log, kind, old>>
N == 1..NSlots
Arr(nd, p, m) == [k |-> "A", nd |-> nd, p |-> p, m |-> m, dt |-> "null", n |-> 0]
Arrs == { Arr(0, 1, 1), Arr(1, 1, 2) } \cup { Arr(2, s[1], s[2]) : s \in Shapes }
Ops == {"add", "sub", "mul", "matmul", "div"}
Ix(n) == { [t |-> "all"], [t |-> "int", i |-> n - 1], [t |-> "int", i |-> n], [t |-> "list", l |-> [q \in 1..n |-> n - q]] }
Junk == {"text", "none", "list", "cplx", "dict", "objarr"}

Acts(kd) ==
  CASE kd = "bin" -> [a : {"bin"}, op : Ops, i : N, j : N, t : N]
    [] kd = "arr" -> { c \in [a : {"arr"}, op : Ops, i : N, y : Arrs, left : BOOLEAN, t : N] : c.op # "div" \/ c.y.nd = 0 }
    [] kd = "bad" -> [a : {"bad"}, op : Ops, i : N, y : Junk, left : BOOLEAN]
    [] kd = "neg" -> [a : {"neg"}, i : N, t : N]
    [] kd = "minreal" -> [a : {"minreal"}, i : N, t : N]
    [] kd = "conv" -> [a : {"conv"}, i : N, to : {"S", "T"}, t : N]
    [] kd = "index" -> UNION { [a : {"index"}, i : {q}, rows : Ix(ws[q].p), cols : Ix(ws[q].m), t : N] : q \in N }
    [] kd = "fb" -> [a : {"fb"}, i : N, j : N, neg : BOOLEAN, t : N]
    [] kd = "set" -> [a : {"set"}, i : N, dt : Dts]

Init == ws = <<>> /\ log = <<>> /\ kind = "?" /\ old = <<>>
New == /\ Len(ws) < NSlots
       /\ \E c \in Start : /\ ws' = Append(ws, c)
                            /\ log' = Append(log, [a |-> "new", c |-> c])
       /\ old' = ws'
       /\ UNCHANGED kind
Pick == /\ Len(ws) = NSlots
        /\ kind = "?" /\ Len(log) < NSlots + Depth
        /\ kind' \in Kinds
        /\ UNCHANGED <<ws, log, old>>
Small(r) == IF r.how \in {"raise", "clash", "free"} THEN TRUE ELSE r.n <= Cap
Call == /\ kind \notin {"?", "end"}
        /\ \E act \in Acts(kind) :
             /\ Small(Effect(ws, act))
             /\ log' = Append(log, act)
             /\ old' = ws
             /\ ws' = After(ws, act, TRUE)
        /\ kind' = "?"
End == /\ kind = "?" /\ Len(log) = NSlots + Depth
       /\ kind' = "end"
       /\ UNCHANGED <<ws, log, old>>
Next == New \/ Pick \/ Call \/ End
Spec == Init /\ [][Next]_vars

TypeOK == \A q \in DOMAIN ws : ws[q].k \in {"S", "T"} /\ ws[q].p \in 1..3 /\ ws[q].m \in 1..3 /\ ws[q].dt \in Dts /\ ws[q].n <= Cap
(* a call changes at most the slot it names *)
LastAct == log[Len(log)]
OneSlot == (kind = "?" /\ Len(log) > NSlots) =>
   \A q \in N : ws[q] # old[q] => LastAct.a # "bad" /\ q = Target(LastAct)
(* a result lives in the time domain of every model it was made of *)
Uses(act) == IF act.a \in {"bin", "fb"} THEN {act.i, act.j} ELSE {act.i}
OneTimeBase == (kind = "?" /\ Len(log) > NSlots /\ LastAct.a \notin {"set", "bad"}) =>
   LET r == Effect(old, LastAct)
   IN r.how \in {"value", "either"} => \A q \in Uses(LastAct) : old[q].dt = r.dt
(* mixing time domains is always refused *)
MixRefused == (kind = "?" /\ Len(log) > NSlots /\ LastAct.a \in {"bin", "fb"}) =>
   (old[LastAct.i].dt # old[LastAct.j].dt <=> Effect(old, LastAct).how = "clash")
(* Transfer results never come from State operands *)
StateAbsorbs == (kind = "?" /\ Len(log) > NSlots /\ LastAct.a \in {"bin", "fb"}) =>
   LET r == Effect(old, LastAct)
   IN r.how \in {"value", "either"} => (r.k = "S") = (old[LastAct.i].k = "S" \/ old[LastAct.j].k = "S")

Emit == (Tell /\ kind = "end") => PrintT("@@" \o ToJson([acts |-> log]))
=============================================================================
