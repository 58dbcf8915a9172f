----------------------------- MODULE ScObjects -----------------------------
(***************************************************************************)
(* Histories of one object: build it, then assign attributes.  A behaviour *)
(* of this machine is a class of model and a sequence of assignments, each *)
(* with the way its value is written; TLC visits every behaviour up to     *)
(* length Depth and writes it out, and checks on the abstract object that  *)
(* refused assignments are no steps at all.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Shapes, Dts, Depth

(* ways of writing a value.  fit: it has to be taken by an object of class x *)
StateActs == { <<at, w>> : at \in {"a", "b", "c", "d"}, w \in {"ok", "list", "int", "big", "small", "text", "ragged", "cplx", "none", "nan", "3d"} }
             \cup { <<"a", "stable">>, <<"a", "edge">>, <<"a", "unstable">>, <<"b", "row">>, <<"d", "row">>, <<"b", "zero">>, <<"c", "zero">> }
TransActs == { <<at, w>> : at \in {"num", "den"}, w \in {"ok", "one", "const", "lead0", "big", "small", "text", "ragged", "cplx", "none", "nan", "zero", "improper"} }
             \cup { <<"den", "stable">>, <<"den", "edge">>, <<"den", "unstable">>, <<"num", "den">>, <<"num", "arr">> }
DtActs == { <<"dt", w>> : w \in {"null", "dt1", "dt2", "neg", "zero", "inf", "nan", "text", "cplx", "list2"} }
Acts(k) == DtActs \cup IF k = "S" THEN StateActs ELSE TransActs

(* the assignments that can change the object: used as all but the last of long histories *)
Moves(k) == { <<"dt", "null">>, <<"dt", "dt1">> } \cup
            IF k = "S" THEN { <<"a", "stable">>, <<"a", "unstable">>, <<"a", "nan">>, <<"a", "big">>, <<"b", "ok">>, <<"c", "ok">>, <<"d", "ok">> }
            ELSE { <<"num", "ok">>, <<"num", "const">>, <<"den", "stable">>, <<"den", "unstable">>, <<"den", "one">>, <<"den", "const">>, <<"num", "improper">>, <<"num", "den">> }

Class == { [k |-> k, p |-> s[1], m |-> s[2], gain |-> g, dt |-> d, fl |-> "gen"] :
           k \in {"S", "T"}, s \in Shapes, g \in BOOLEAN, d \in Dts }

VARIABLES x, dt, acts
vars == <<x, dt, acts>>
Init == x \in Class /\ dt = x.dt /\ acts = <<>>
NewDt(a) == IF a[1] = "dt" /\ a[2] \in {"null", "dt1", "dt2"} THEN a[2] ELSE dt
Next == /\ Len(acts) < Depth
        /\ \E a \in (IF Len(acts) + 1 = Depth THEN Acts(x.k) ELSE Moves(x.k)) :
              /\ acts' = Append(acts, a)
              /\ dt' = NewDt(a)
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

RECURSIVE LastDt(_, _)
LastDt(s, d) == IF s = <<>> THEN d
                ELSE LET h == Head(s) IN LastDt(Tail(s), IF h[1] = "dt" /\ h[2] \in {"null", "dt1", "dt2"} THEN h[2] ELSE d)
DtFollows == dt = LastDt(acts, x.dt)
Emit == Len(acts) = Depth => PrintT("@@" \o ToJson([x |-> x, acts |-> acts]))
=============================================================================
