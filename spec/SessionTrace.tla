---------------------------- MODULE SessionTrace ----------------------------
(* Executions of prepare, restore, reads, screens and drops on the real code. *)
EXTENDS SessionRules, Replay
Start0(e) == SesNew(e)
Step0(s, e) == SesStep(s, e)
=============================================================================
