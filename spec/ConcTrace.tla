------------------------------ MODULE ConcTrace ------------------------------
(* Executions of several threads (C14, C15).                                  *)
EXTENDS ConcRules, Replay
Start0(e) == ConcStart(e)
Step0(s, e) == ConcStep(s, e)
=============================================================================
