---------------------------- MODULE TraceVolume ----------------------------
(* Recorded executions of volume operations, judged by VolumeRules. *)
EXTENDS VolumeRules
TNext == TraceStep(JudgeV)
=============================================================================
