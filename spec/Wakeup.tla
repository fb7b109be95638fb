------------------------------- MODULE Wakeup --------------------------------
(* Design of waiting for signals, in the steps between which one can arrive:  *)
(* the handler only notes a signal in an atomic set; a read takes signals out *)
(* of it, blocks their delivery, looks at the set once more and then waits    *)
(* with the delivery enabled for just that time.                              *)
(* Checked: every result is one InputRules allows; no wait begins or goes on  *)
(* while a signal it should report has been noted or held back; and (Live)    *)
(* every signal is reported in the end.                                       *)
EXTENDS InputRules, TLC, Json
CONSTANTS MaxArr,   \* signals that arrive during one call (Live: at all)
          MaxCalls, \* calls
          Broken,   \* "" or a mistake in the design, to see that it is found
          Live,     \* reads without end, to check that every signal is reported
          Gen

VARIABLES pc, o, to, bits, held, mask, inp, clk, sys, apl, spl, na, last, hot, narr, ncall, owed, m, why, hist
vars == <<pc, o, to, bits, held, mask, inp, clk, sys, apl, spl, na, last, hot, narr, ncall, owed, m, why, hist>>
View == <<pc, o, to, bits, held, mask, inp, clk, sys, apl, spl, na, last, hot, narr, ncall, owed, why, m.cfg, m.pend, m.maybe, m.rd - m.pos>>

Sigs == {"int", "quit", "winch"}
Hears(x) == m.cfg # <<>> /\ (x = "winch" \/ \E i \in DOMAIN m.cfg : x \in m.cfg[i])
Told == {"winch"} \cup m.cfg[Len(m.cfg)]
Calls == IF Live THEN {[op |-> "ev"]} ELSE {[op |-> "ev"], [op |-> "wait"], [op |-> "raw", cnt |-> 4]}
Tos == IF Live THEN {-1} ELSE {-1, 5}
Order == <<"int", "quit", "winch">>   \* by number
First(S) == Order[MinS({i \in DOMAIN Order : Order[i] \in S})]
WaitsFor == IF o.op = "wait" THEN Told ELSE Sigs
(* What the mask holds back.                                                  *)
Holds(x) == mask /\ ~(Broken = "one" /\ x = "winch")
None0 == [k |-> "none"]
Unit == [k |-> "unit"]

(* quit is heard in the inner preparation, but not reported.                  *)
Configs == {<<{"int", "quit"}>>, <<{"int", "quit"}, {"int"}>>, <<{}>>}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
RECURSIVE Pushed(_, _)
Pushed(x, c) == IF c = <<>> THEN x ELSE Pushed(InStep(x, [op |-> "prep", rs |-> SetSeq(Head(c)), r |-> "ok", e |-> 0, sys |-> <<>>, ret |-> Unit]).s, Tail(c))

Init ==
  /\ \E c \in Configs : m = Pushed(InNew(<<>>, FALSE, 5, 7), c) /\ hist = [i \in DOMAIN c |-> [op |-> "prep", rs |-> SetSeq(c[i])]]
  /\ pc = "idle" /\ o = [op |-> "none"] /\ to = 0 /\ bits = {} /\ held = {} /\ mask = FALSE /\ inp = <<>> /\ clk = 0
  /\ sys = <<>> /\ apl = <<>> /\ spl = <<>> /\ na = 0 /\ last = 1 /\ hot = FALSE /\ narr = 0 /\ ncall = 0 /\ owed = {} /\ why = ""

Say(h) == hist' = IF Gen THEN hist \o h ELSE hist
Judge(e) == LET r == InStep(m, e) IN m' = r.s /\ why' = r.why
Ev(x) == [op |-> "sig", s |-> x, r |-> "ok", e |-> 0, ret |-> [k |-> "bool", v |-> Hears(x)], sys |-> <<>>]

(* ---- between calls -------------------------------------------------------- *)
SigNow(x) ==
  /\ pc = "idle" /\ ~Live /\ ncall > 0 /\ bits = {} /\ Hears(x)
  /\ bits' = bits \cup {x} /\ Judge(Ev(x)) /\ Say(<<[op |-> "sig", s |-> x]>>)
  /\ UNCHANGED <<pc, o, to, held, mask, inp, clk, sys, apl, spl, na, last, hot, narr, ncall, owed>>
Type ==
  /\ pc = "idle" /\ ~Live /\ inp = <<>>
  /\ inp' = <<97>> /\ Judge([op |-> "in", bytes |-> <<97>>, r |-> "ok", e |-> 0, ret |-> Unit, sys |-> <<>>]) /\ Say(<<[op |-> "in", bytes |-> <<97>>]>>)
  /\ UNCHANGED <<pc, o, to, bits, held, mask, clk, sys, apl, spl, na, last, hot, narr, ncall, owed>>
Begin(c, t) ==
  /\ pc = "idle" /\ why = "" /\ (Live \/ ncall < MaxCalls)
  /\ pc' = (IF c.op = "wait" THEN "mask" ELSE "take1") /\ o' = c /\ to' = t
  /\ clk' = 0 /\ sys' = <<>> /\ apl' = <<>> /\ spl' = <<>> /\ na' = 0 /\ last' = 1 /\ hot' = FALSE /\ narr' = IF Live THEN narr ELSE 0
  /\ ncall' = IF Live THEN 0 ELSE ncall + 1
  /\ UNCHANGED <<bits, held, mask, inp, owed, m, why, hist>>

(* ---- the steps of a call --------------------------------------------------- *)
(* A step on the atomic set.                                                  *)
Atomic(n) == na' = (IF Live THEN 0 ELSE na + n) /\ hot' = (n > 0)
Still == UNCHANGED <<o, to, sys, apl, spl, last, narr, ncall>>
Quiet == UNCHANGED <<owed, m, why, hist>>

Return(r, ret, got) ==
  /\ pc' = "idle" /\ hot' = FALSE
  /\ Judge(o @@ [on |-> "t", r |-> r, e |-> 0, ret |-> ret, sys |-> sys \o got, rd |-> m.rd + FoldLeft(LAMBDA a, y : a + y.r, 0, got),
                 clk |-> clk, clkf |-> clk, inf |-> IF to < 0 THEN 1 ELSE 0, tlo |-> IF to < 0 THEN 0 ELSE to, thi |-> IF to < 0 THEN 0 ELSE to])
  /\ owed' = (IF ret.k = "sig" THEN owed \ {ret.s} ELSE IF ret.k = "resize" THEN owed \ {"winch"} ELSE owed)
  /\ Say(<<[op |-> "aplan", p |-> apl], [op |-> "splan", p |-> spl], o @@ [to |-> to]>>)

(* Takes a signal in two steps: looks for the first, then removes it.         *)
Look(from, empty) ==
  /\ pc = from /\ Atomic(1)
  /\ pc' = IF bits = {} THEN empty ELSE from \o First(bits)
  /\ UNCHANGED <<bits, held, mask, inp, clk>> /\ Still /\ Quiet
Takes(from, x) ==
  /\ pc = from \o x /\ Atomic(1)
  /\ bits' = CASE Broken = "clear" -> {} [] OTHER -> bits \ {x}
  /\ pc' = IF x \in Told THEN "tell" \o x ELSE "take1"
  /\ UNCHANGED <<held, mask, inp, clk>> /\ Still /\ Quiet
Tell(x) ==
  /\ pc = "tell" \o x
  /\ Return("ok", IF x = "winch" THEN [k |-> "resize", l |-> m.h, c |-> m.w] ELSE [k |-> "sig", s |-> x], <<>>)
  /\ UNCHANGED <<bits, held, mask, inp, clk, na>> /\ Still

Mask == /\ pc = "mask" /\ pc' = "look" /\ mask' = (Broken # "unmasked") /\ hot' = FALSE
        /\ UNCHANGED <<bits, held, inp, clk, na>> /\ Still /\ Quiet
LookAgain ==
  /\ pc = "look" /\ Atomic(1)
  /\ pc' = IF bits \cap WaitsFor # {} THEN "ready" ELSE "enter"
  /\ UNCHANGED <<bits, held, mask, inp, clk>> /\ Still /\ Quiet
(* The wait: what was held back is delivered first, and ends it.              *)
Enter ==
  /\ pc = "enter"
  /\ bits' = bits \cup held /\ held' = {}
  /\ Atomic(Cardinality(held))
  /\ pc' = CASE held # {} -> "look" [] inp # <<>> -> "ready" [] OTHER -> "wait"
  /\ UNCHANGED <<mask, inp, clk>> /\ Still /\ Quiet
Nothing ==
  /\ pc = "wait" /\ ~Live
  /\ pc' = (IF to < 0 THEN "block" ELSE "late") /\ clk' = (IF to < 0 THEN clk ELSE to) /\ hot' = FALSE
  /\ UNCHANGED <<bits, held, mask, inp, na>> /\ Still /\ Quiet
(* The mask is put back: what it held back is delivered now.                  *)
Unmask ==
  /\ pc \in {"ready", "block", "late"}
  /\ bits' = bits \cup held /\ held' = {} /\ mask' = FALSE /\ Atomic(Cardinality(held))
  /\ pc' = CASE pc # "ready" -> "end" \o pc [] o.op = "wait" -> "true" [] OTHER -> "take2"
  /\ UNCHANGED <<inp, clk>> /\ Still /\ Quiet
End ==
  /\ \/ pc = "endblock" /\ Return("block", Unit, <<>>)
     \/ pc = "endlate" /\ Return("ok", IF o.op = "wait" THEN [k |-> "bool", v |-> FALSE] ELSE None0, <<>>)
     \/ pc = "true" /\ Return("ok", [k |-> "bool", v |-> TRUE], <<>>)
  /\ UNCHANGED <<bits, held, mask, inp, clk, na>> /\ Still
Read ==
  /\ pc = "read" /\ inp' = <<>>
  /\ Return("ok", IF o.op = "raw" THEN [k |-> "raw", n |-> 1, bytes |-> inp] ELSE [k |-> "key", key |-> "Char", c |-> inp[1]],
            <<[k |-> "r", n |-> 128, r |-> Len(inp), e |-> 0]>>)
  /\ UNCHANGED <<bits, held, mask, clk, na>> /\ Still

(* ---- signals --------------------------------------------------------------- *)
(* One arrives right after a step on the set, right before the wait, or in it. *)
Comes(x) ==
  /\ pc # "idle" /\ narr < MaxArr /\ Hears(x) /\ (hot \/ pc \in {"enter", "wait"})
  /\ ~Live \/ x \notin owed
  /\ narr' = narr + 1 /\ sys' = Append(sys, [k |-> "sig", s |-> x, t |-> clk])
  /\ owed' = IF x \in Told THEN owed \cup {x} ELSE owed
  /\ IF pc = "wait"
     THEN /\ bits' = bits \cup {x} /\ UNCHANGED held
          /\ pc' = (IF Broken = "elsewhere" THEN pc ELSE "look") /\ Atomic(1)
          /\ spl' = Append(spl, [k |-> "sig", ms |-> 0, s |-> x]) /\ UNCHANGED <<apl, last>>
     ELSE /\ IF Holds(x) /\ Broken # "elsewhere" THEN held' = held \cup {x} /\ UNCHANGED bits ELSE bits' = bits \cup {x} /\ UNCHANGED held
          /\ UNCHANGED <<pc, na, hot>>
          /\ IF pc = "enter"
             THEN spl' = Append(spl, [k |-> "race", s |-> x]) /\ UNCHANGED <<apl, last>>
             ELSE apl' = Append(apl, [skip |-> na - last, s |-> x]) /\ last' = (IF Live THEN 1 ELSE na) /\ UNCHANGED spl
  /\ UNCHANGED <<o, to, mask, inp, clk, ncall, m, why, hist>>

Step == \/ Look("take1", "mask") \/ Look("take2", "read")
        \/ \E x \in Sigs : Takes("take1", x) \/ Takes("take2", x) \/ Tell(x)
        \/ Mask \/ LookAgain \/ Enter \/ Unmask \/ End \/ Read
        \/ \E c \in Calls, t \in Tos : Begin(c, t)
Next == Step \/ Nothing \/ Type \/ \E x \in Sigs : SigNow(x) \/ Comes(x)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Step)

Emit == (Gen /\ pc # "idle" /\ pc' = "idle") => PrintT("TEST " \o ToJson(hist'))
Allows == why = ""
Awake == pc = "wait" => bits \cap WaitsFor = {} /\ held = {}
Reported == \A x \in Sigs : x \in owed ~> x \notin owed
=============================================================================
