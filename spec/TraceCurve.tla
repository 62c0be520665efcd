----------------------------- MODULE TraceCurve -----------------------------
(* Recorded executions of curve operations, judged by CurveRules. *)
EXTENDS CurveMore
TNext == TraceStep(JudgeCM)
=============================================================================
