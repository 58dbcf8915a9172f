------------------------------ MODULE EvMemory ------------------------------
(* Recorded calls and writes: ev.objs, ev.steps[q] = [w, changed].          *)
EXTENDS EvWorkspace, Memory
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

MemViol(ev) ==
  UNION { LET st == ev.steps[q]
              extra == { st.changed[i] : i \in DOMAIN st.changed } \ May(ev.objs, st)
          IN IF extra = {} THEN {}
             ELSE IF st.w = "call" THEN {"argument-changed"} ELSE {"shared-memory"}
          : q \in DOMAIN ev.steps }
=============================================================================
