------------------------------- MODULE OutRules -------------------------------
(* What the device may have received (C01).  acc is the sequence of output    *)
(* operations so far, [op, len, ok]; segs is what arrived: <<op, from, to>>.  *)
(* A successful operation contributes all its bytes, a failed one those that  *)
(* had arrived when it failed (len), and none later.                          *)
EXTENDS Integers, Sequences

RECURSIVE Match(_, _, _, _, _)
(* segs[i..] are explained by acc[k..]; full: nothing may be outstanding.     *)
(* Answer: "" or the reason.                                                  *)
Match(segs, acc, i, k, full) ==
  IF i > Len(segs) THEN
    IF full /\ \E j \in k..Len(acc) : acc[j].ok /\ acc[j].len > 0
    THEN "output not delivered" ELSE ""
  ELSE IF k > Len(acc) THEN "bytes that were not written (or twice)"
  ELSE LET x == segs[i] a == acc[k] IN
    IF x[1] # a.op THEN
      IF a.ok /\ a.len > 0 THEN "bytes missing or out of order" ELSE Match(segs, acc, i, k + 1, full)
    ELSE IF x[2] # 0 THEN "bytes missing or repeated"
    ELSE IF ~a.ok /\ x[3] > a.len THEN "bytes of a failed operation arrive after it"
    ELSE IF x[3] < a.len /\ a.ok /\ (full \/ i < Len(segs)) THEN "bytes missing"
    ELSE Match(segs, acc, i + 1, k + 1, full)

(* How many bytes of the last operation have arrived.                          *)
Arrived(segs, op) == IF segs = <<>> \/ segs[Len(segs)][1] # op THEN 0 ELSE segs[Len(segs)][3]

Delivered(segs, acc, full) == Match(segs, acc, 1, 1, full)
=============================================================================
