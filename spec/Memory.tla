------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Who may change whom.  Objects (arrays, lists, models) own cells.  A     *)
(* call reads its arguments and returns objects made of new cells; a write *)
(* through an object changes its own cells only.  So a call changes no     *)
(* object and a write changes no other object:                             *)
(*   May(step) is the set of objects that a step may change.               *)
(* Results of one call may share cells among themselves, except models,    *)
(* and a conversion that has nothing to do returns its argument itself     *)
(* (then it is the same object, not another one).                          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Obj(objs, name) == CHOOSE q \in DOMAIN objs : objs[q].name = name
May(objs, st) ==
  IF st.w = "call" THEN {}
  ELSE LET o == objs[Obj(objs, st.w)]
       IN {st.w} \cup
          (IF o.role = "res" THEN { objs[q].name : q \in { q \in DOMAIN objs : objs[q].role = "res" /\ objs[q].kind # "model" } } ELSE {})
          \cup { objs[q].name : q \in { q \in DOMAIN objs : objs[q].id = o.id } }
=============================================================================
