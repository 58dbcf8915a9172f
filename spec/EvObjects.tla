----------------------------- MODULE EvObjects -----------------------------
(* Verdicts on recorded histories of one object.                            *)
EXTENDS EvDiscrete, Objects
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* what a model reports about itself *)
SelfViol(G) ==
  IF G.k \notin {"S", "T"} THEN {"not-a-model"}
  ELSE IF ~(ShapeOK(G) /\ NumericOK(G)) THEN {"malformed"}
  ELSE LET Y == Parsed(G)
           num == PIsNum(G.poles) /\ PIsNum(G.zeros)
           ps == PParse(G.poles)
           zs == PParse(G.zeros)
       IN If(Counts(G), "counts") \cup If(ToArray(G, Y), "to-array") \cup
          IF ~num THEN {"poles"}
          ELSE LET pv == If(PolesOK(G, Y, ps), "poles")
               IN pv \cup (IF pv # {} THEN {} ELSE If(ZerosOK(G, Y, ps, zs), "zeros")) \cup
                  If(StabOK(G, ps), "stability") \cup If(PropsOK(G, ps), "damping")

(* as if it had been built with the current data *)
AsBuilt(G, F) ==
  F.k = "X" \/ (/\ SameData(G, F) /\ G.stab = F.stab /\ G.set = F.set /\ G.arr.t = F.arr.t
                /\ Len(G.poles) = Len(F.poles) /\ Len(G.zeros) = Len(F.zeros)
                /\ CloseP(PFromRoots(PParse(G.poles)), PFromRoots(PParse(F.poles)), Tol5)
                /\ G.shape = F.shape)

(* a step [attr, v, out, x, fresh]: x the model afterwards, fresh a model built with the new data *)
SetViol(X, st) ==
  LET r == Assign(X, st.attr, st.v)
  IN IF st.out.t = "err"
     THEN (IF r.how = "value" THEN {"refused-valid"} ELSE {}) \cup If(st.x = X, "not-atomic")
     ELSE IF r.how = "raise" THEN {"accepted-invalid"}
     ELSE IF r.how = "free" THEN {}
     ELSE If(SameData(st.x, r.x), "not-assigned") \cup If(AsBuilt(st.x, st.fresh), "as-built") \cup SelfViol(st.x)

RECURSIVE SetsViol(_, _, _)
SetsViol(X, steps, q) ==
  IF q > Len(steps) THEN {}
  ELSE SetViol(X, steps[q]) \cup SetsViol(steps[q].x, steps, q + 1)
ObjViol(ev) == SelfViol(ev.x) \cup SetsViol(ev.x, ev.steps, 1)
=============================================================================
