------------------------------ MODULE SeqTrace ------------------------------
(* Histories of operations on the real sequence map.                          *)
EXTENDS SeqRules, Replay
Start0(e) == MEmpty
Ok(s) == [s |-> s, why |-> ""]
No(s, w) == [s |-> s, why |-> w]
Step0(s, e) ==
  IF e.op \in {"hang", "abort", "died"} THEN No(s, e.op)
  ELSE LET x == MApply(s, e) IN
  IF e.r # "ok" THEN No(s, "panic in " \o e.op)
  ELSE IF e.ret # x.ret THEN No(s, e.op \o " returned a wrong value")
  ELSE IF e.seq # List(x.m) THEN No(s, e.op \o " left wrong contents")
  ELSE Ok(x.m)
=============================================================================
