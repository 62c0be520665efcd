----------------------------- MODULE TraceMath -----------------------------
(* Recorded executions of the mathematics, judged by MathRules. *)
EXTENDS MathRules
TNext == TraceStep(JudgeMath)
=============================================================================
