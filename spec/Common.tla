------------------------------- MODULE Common -------------------------------
(* What all trace specifications share.                                       *)
EXTENDS Device

OkS(s) == [s |-> s, why |-> ""]
BadS(s, why) == [s |-> s, why |-> why]

Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d

(* The device refused output during the event (anything but an interruption). *)
HardErr(e) == \E i \in DOMAIN e.sys :
                e.sys[i].k = "w" /\ e.sys[i].r <= 0 /\ e.sys[i].n > 0 /\ e.sys[i].e # 4

(* The event did not end as any operation may.                                *)
Abnormal(e) ==
  CASE e.op = "hang" -> "an operation does not end"
    [] e.op = "abort" -> "the process died"
    [] e.op = "deadlock" -> "deadlock"
    [] Has(e, "r") /\ e.r = "panic" -> "panic"
    [] Has(e, "r") /\ e.r = "dead" -> "an operation waits for a lock of its own thread"
    [] OTHER -> ""

=============================================================================
