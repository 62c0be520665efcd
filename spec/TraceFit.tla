------------------------------ MODULE TraceFit ------------------------------
(* Recorded executions of parametrization and fitting, judged by FitRules. *)
EXTENDS FitRules
TNext == TraceStep(JudgeF)
=============================================================================
