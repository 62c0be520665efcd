----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace acceptance.  The file named by the environment variable TRACE     *)
(* holds one recorded execution (scenario) per line:                       *)
(*    {"id": n, "ev": [ {"op":..., arguments..., "x":exception, "mod":     *)
(*      input objects changed?, "r": result}, ... ]}                       *)
(* The specification has one behaviour per scenario: it starts before the  *)
(* first event and takes one step per event.  A step judges the event      *)
(* with the operator Judge(ev, pos) of the extending module, which returns   *)
(* the set of names of violated obligations; a non-empty set is reported   *)
(* on a FAIL line and recorded in the state (bad).                         *)
(***************************************************************************)
EXTENDS Nurbs, Json, IOUtils, FiniteSets

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES scn, pos, bad
tvars == <<scn, pos, bad>>

TraceInit == scn \in 1 .. Len(Trace) /\ pos = 0 /\ bad = {}

\* an event the library did not survive, or in which it changed an input it was given by const reference
Crashed(e) == e.x \in {"crash:timeout", "crash:signal6", "crash:signal8", "crash:signal11", "crash:signal7", "crash:signal4", "bad_alloc", "stl_out_of_range"}
              \/ (Len(e.x) > 5 /\ SubSeq(e.x, 1, 5) = "crash")

TraceStep(Judge(_, _)) ==
    LET ev == Trace[scn].ev IN
    /\ pos < Len(ev)
    /\ LET e == ev[pos + 1]
           F == (IF Crashed(e) THEN {"crash " \o e.x} ELSE Judge(ev, pos + 1))
                \cup (IF e.mod THEN {"input object modified"} ELSE {})
       IN  /\ (F # {} => PrintT(<<"FAIL", Trace[scn].id, pos + 1, e.op, F>>))
           /\ bad' = F
    /\ pos' = pos + 1
    /\ UNCHANGED scn

\* helper: the set of names of the conjuncts that are false; the argument is a sequence of <<name, formula>> thunks
Failing(name, b) == IF b THEN {} ELSE {name}

RdCurve(c) == [p |-> c.p, U |-> RReadAll(c.U), P |-> RReadAll(c.P)]
RdSurf(c)  == [pu |-> c.pu, pv |-> c.pv, U |-> RReadAll(c.U), V |-> RReadAll(c.V), P |-> RReadAll(c.P)]
RdVol(c)   == [pu |-> c.pu, pv |-> c.pv, pw |-> c.pw, U |-> RReadAll(c.U), V |-> RReadAll(c.V), W |-> RReadAll(c.W), P |-> RReadAll(c.P)]
FiniteCurve(c) == RAllFinite(c.U) /\ RAllFinite(c.P)
FiniteSurf(c) == RAllFinite(c.U) /\ RAllFinite(c.V) /\ RAllFinite(c.P)
FiniteVol(c) == RAllFinite(c.U) /\ RAllFinite(c.V) /\ RAllFinite(c.W) /\ RAllFinite(c.P)

CurveAt(ev, i) == RdCurve(ev[i].r.c)
SurfAt(ev, i) == RdSurf(ev[i].r.s)
VolAt(ev, i) == RdVol(ev[i].r.v)
Has(e, f) == f \in DOMAIN e

\* tolerances
TEval == RQ(1, 100000000)       \* 1e-8: direct evaluation
TShape == RQ(1, 10000000)       \* 1e-7: shape preserving operations
TKnot == RQ(1, 1000000000)      \* 1e-9: knots that are copied or affinely mapped
TDer == RQ(1, 10000000)         \* 1e-7 (relative): derivatives
TFrenet == RQ(1, 1000000)       \* 1e-6: curvature, torsion, frame
TArc == RQ(1, 100000)           \* 1e-5: centre and radius found from points
TLoose == RQ(1, 1000)           \* 1e-3: results within the library's own modification tolerance
TOne == RQ(1, 200000)          \* 5e-6: single-basis-function variants drop terms below 1e-6
=============================================================================
