----------------------------- MODULE InputTrace -----------------------------
(* Executions of reading operations.                                          *)
EXTENDS InputRules, Replay
Start0(e) == InNew(e.keys, e.mouse, e.h, e.w)
Step0(s, e) == InStep(s, e)
=============================================================================
