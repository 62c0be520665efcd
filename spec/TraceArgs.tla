----------------------------- MODULE TraceArgs -----------------------------
(* Recorded calls, judged by ArgRules. *)
EXTENDS ArgRules
TNext == TraceStep(JudgeArgs)
=============================================================================
