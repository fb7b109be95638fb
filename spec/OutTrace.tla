------------------------------ MODULE OutTrace ------------------------------
(* Executions of the output operations of a Terminal under device faults.     *)
EXTENDS OutRules, Common, Replay

Start0(e) == [acc |-> <<>>, guard |-> FALSE]

(* After a successful flush without device error nothing is outstanding.      *)
Check(s, e, full) ==
  LET w == Delivered(e.segs, s.acc, full) IN IF w = "" THEN OkS(s) ELSE BadS(s, w)

Step0(s, e) ==
  LET ab == Abnormal(e) IN
  CASE ab # "" -> BadS(s, ab)
    [] e.op \in {"wplan", "open", "stdfds"} -> IF e.r = "ok" THEN Check(s, e, FALSE) ELSE BadS(s, "failed")
    [] e.r \notin {"ok", "err"} -> BadS(s, "no result")
    [] e.r = "err" /\ ~HardErr(e) -> BadS(s, "failed without a device error")
    [] e.op = "lockw" -> Check([s EXCEPT !.guard = TRUE], e, FALSE)
    [] e.op \in {"str", "chr", "fmt", "fmt2"} ->
         Check([s EXCEPT !.acc = Append(@, [op |-> e.pat[1], ok |-> e.r = "ok",
                      len |-> IF e.r = "ok" THEN e.pat[2] ELSE Arrived(e.segs, e.pat[1])])], e,
               ~s.guard /\ ~HardErr(e))
    [] e.op = "flush" -> IF e.r = "ok" /\ HardErr(e) THEN BadS(s, "flush hides a device error")
                         ELSE Check(s, e, e.r = "ok")
    [] e.op = "unlockw" -> Check([s EXCEPT !.guard = FALSE], e, ~HardErr(e))
    [] OTHER -> BadS(s, "unknown event " \o e.op)
=============================================================================
