------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Checks recorded calls of the real library against the specification.    *)
(* Every event is one initial state; the single step computes its verdict, *)
(* the set of failed clauses, and prints it if it is not empty.  TLC's     *)
(* workers therefore judge events in parallel.                             *)
(***************************************************************************)
EXTENDS EvReport, Json, IOUtils, TLC, Integers, Sequences

Events == ndJsonDeserialize(IOEnv.EVENTS)

Verdict(ev) ==
  CASE ev.t = "prep" -> {"prep-raised"}       \* the library raised on the valid data of a call
    [] ev.t = "bin" -> BinViol(ev)
    [] ev.t = "neg" -> NegViol(ev)
    [] ev.t = "conv" -> ConvViol(ev)
    [] ev.t = "index" -> IndexViol(ev)
    [] ev.t = "setitem" -> SetItemViol(ev)
    [] ev.t = "feedback" -> FeedbackViol(ev)
    [] ev.t = "dc" -> DcViol(ev)
    [] ev.t = "minreal" -> MinrealViol(ev)
    [] ev.t = "stair" -> StairViol(ev)
    [] ev.t = "hess" -> HessViol(ev)
    [] ev.t = "kmat" -> KalmanMatViol(ev)
    [] ev.t = "ktest" -> KalmanTestViol(ev)
    [] ev.t = "kdec" -> KalmanDecViol(ev)
    [] ev.t = "props" -> PropsViol(ev)
    [] ev.t = "array" -> ArrayViol(ev)
    [] ev.t = "repr" -> ReprViol(ev)
    [] ev.t = "svd" -> SvdViol(ev)
    [] ev.t = "ker" -> KerViol(ev)
    [] ev.t = "ei" -> EiViol(ev)
    [] ev.t = "mslice" -> SliceViol(ev)
    [] ev.t = "pair" -> PairViol(ev)
    [] ev.t = "cidx" -> IndicesViol(ev)
    [] ev.t = "cancel" -> CancelViol(ev)
    [] ev.t = "tzeros" -> TzerosViol(ev)
    [] ev.t = "lyap" -> LyapViol(ev)
    [] ev.t = "gcd" -> GcdViol(ev)
    [] ev.t = "lcm" -> LcmViol(ev)
    [] ev.t = "polyop" -> PolyOpViol(ev)
    [] ev.t = "polydiv" -> DivViol(ev)
    [] ev.t = "fromroots" -> FromRootsViol(ev)
    [] ev.t = "companion" -> CompanionViol(ev)
    [] ev.t = "disc" -> DiscViol(ev)
    [] ev.t = "round" -> RoundViol(ev)
    [] ev.t = "back" -> BackViol(ev)
    [] ev.t = "book" -> BookViol(ev)
    [] ev.t = "obj" -> ObjViol(ev)
    [] ev.t = "ws" -> WsViol(ev)
    [] ev.t = "junk" -> JunkViol(ev)
    [] ev.t = "mem" -> MemViol(ev)
    [] ev.t = "freq" -> FreqViol(ev)
    [] ev.t = "sim" -> SimViol(ev)
    [] ev.t = "resp" -> RespViol(ev)
    [] ev.t = "auto" -> AutoViol(ev)
    [] ev.t = "norm" -> NormViol(ev)
    [] ev.t = "lqr" -> LqrViol(ev)
    [] ev.t = "ack" -> AckViol(ev)
    [] ev.t = "build" -> BuildViol(ev)
    [] ev.t = "plot" -> PlotViol(ev)
    [] ev.t = "rand" -> RandViol(ev)
    [] ev.t = "cat" -> CatViol(ev)

VARIABLES i, v
Init == i \in 1..Len(Events) /\ v = {"?"}
Next == /\ v = {"?"}
        /\ v' = TLCEval(Verdict(Events[i]))
        /\ UNCHANGED i
        /\ IF v' = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, v |-> v']))
=============================================================================
