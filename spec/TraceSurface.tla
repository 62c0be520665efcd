---------------------------- MODULE TraceSurface ----------------------------
(* Recorded executions of surface (and curve) operations, judged by SurfaceRules. *)
EXTENDS SurfaceMore
TNext == TraceStep(JudgeSM)
=============================================================================
