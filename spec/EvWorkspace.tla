---------------------------- MODULE EvWorkspace ----------------------------
(***************************************************************************)
(* Follows a recorded session.  ev.steps[q] = [act, out, dig], where dig   *)
(* are the fingerprints of all slots after the step; ev.dig0 before.  The  *)
(* facets of the slots are carried along by the machine of Workspace, so   *)
(* an unnoticed change of facets shows up at the next use of the slot.     *)
(***************************************************************************)
EXTENDS EvObjects, Workspace
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Sound(G) == IF G.k \notin {"S", "T"} THEN {"not-a-model"}
            ELSE IF ~(ShapeOK(G) /\ NumericOK(G)) THEN {"malformed"}
            ELSE If(Counts(G), "counts") \cup If(G.shape = <<G.p, G.m>>, "counts")
                 \cup If(ToArray(G, Parsed(G)), "to-array")

StepFacets(G, r) ==
  IF G.k \notin {"S", "T"} THEN {"not-a-model"} ELSE FacetViol(G, r) \cup Sound(G)

CallViol(ws, st) ==
  LET r == Effect(ws, st.act)
  IN IF st.out.t = "err"
     THEN CASE r.how = "clash" -> If(st.out.e = "ValueError", "dt-error-class")
            [] r.how = "value" -> {"refused-valid"}
            [] OTHER -> {}
     ELSE CASE r.how = "clash" -> {"accepted-dt"}
            [] r.how = "raise" -> {"accepted-invalid"}
            [] r.how = "free" -> {}
            [] OTHER -> StepFacets(st.out.g, r)

(* slots that a step may change *)
MayChange(st, q) == st.out.t = "ok" /\ st.act.a # "bad" /\ q = Target(st.act)
Untouched(before, st) ==
  \A q \in DOMAIN before : MayChange(st, q) \/ st.dig[q] = before[q]

RECURSIVE Session(_, _, _, _)
Session(ws, dig, steps, q) ==
  IF q > Len(steps) THEN {}
  ELSE LET st == steps[q]
           v == CallViol(ws, st) \cup If(Untouched(dig, st), "operands-changed")
       IN IF v # {} \/ Effect(ws, st.act).how = "free" THEN v
          ELSE Session(After(ws, st.act, st.out.t = "ok"), st.dig, steps, q + 1)
WsViol(ev) == Session(ev.ws0, ev.dig0, ev.steps, 1)

(* one call with something that is no operand *)
JunkViol(ev) == If(ev.x = ev.x2, "operands-changed") \cup If(ev.out.t = "err", "accepted-invalid")
=============================================================================
