------------------------------- MODULE Session -------------------------------
(* Design of prepare and restore: the order of the steps, what is remembered, *)
(* what is undone when a step fails, and what is done again after the process *)
(* was continued.  Checked: SessionRules accepts every event.                 *)
EXTENDS SessionRules, Json
CONSTANTS Cfgs, Faulty, Depth, Gen, Interfere

VARIABLES tio, disp, lib, q, stack, m, why, hist
vars == <<tio, disp, lib, q, stack, m, why, hist>>
View == <<tio, disp, lib, q, stack, m, why>>

Cooked == [icanon |-> TRUE, echo |-> TRUE, isig |-> TRUE, ixon |-> TRUE, icrnl |-> TRUE, inlcr |-> FALSE, vmin |-> 1, vtime |-> 2, other |-> 0]
Disp0 == [int |-> 11, quit |-> 0, tstp |-> 1, cont |-> 0, winch |-> 12]
Obs(t, d) == [tio |-> t, disp |-> d, fds |-> 1, std |-> 0]

All == << [bs |-> FALSE, cf |-> FALSE, kp |-> FALSE, ms |-> FALSE, mo |-> FALSE, rs |-> <<>>],
          [bs |-> TRUE, cf |-> TRUE, kp |-> TRUE, ms |-> TRUE, mo |-> TRUE, rs |-> <<"int", "cont">>],
          [bs |-> FALSE, cf |-> TRUE, kp |-> FALSE, ms |-> TRUE, mo |-> FALSE, rs |-> <<"tstp", "quit">>],
          [bs |-> TRUE, cf |-> FALSE, kp |-> TRUE, ms |-> FALSE, mo |-> TRUE, rs |-> <<"int", "winch", "tstp">>] >>

Fails == IF Faulty THEN {<<>>, <<"g">>, <<"s">>, <<"w">>, <<"w", "w">>, <<"w", "s">>, <<"s", "s">>} ELSE {<<>>}
NoMode == "none"
Init ==
  /\ tio = Cooked /\ disp = Disp0 /\ q = <<>> /\ stack = <<>> /\ why = "" /\ hist = <<>>
  /\ lib = [mouse |-> NoMode, keypad |-> FALSE, resume |-> 0, pend |-> FALSE]
  /\ m = [SesNew([h |-> 1, w |-> 1, obs |-> Obs(Cooked, Disp0), mouse |-> TRUE, haskp |-> TRUE, hasalt |-> TRUE]) EXCEPT !.kind = "term"]

Md(n, on) == [o |-> "mode", n |-> n, on |-> on]
SetMouse(old, new) ==
  (IF old # NoMode THEN <<Md(1006, FALSE), Md(1002, FALSE), Md(1003, FALSE)>> ELSE <<>>) \o
  (IF new # NoMode THEN <<Md(1006, TRUE), Md(1002, TRUE)>> ELSE <<>>) \o
  (IF new = "mot" THEN <<Md(1003, TRUE)>> ELSE <<>>)
SetKeypad(on) == <<Md(1, on), [o |-> "kp", on |-> on]>>

(* x = [tio, disp, lib, q, dev, sys, fail]: fail is the sequence of results   *)
(* of the calls "g", "s", "w" to come, each "" or an error.                   *)
Takes(x, k) == x.fail # <<>> /\ Head(x.fail) = k
Flush(x) ==
  IF x.q = <<>> THEN [x EXCEPT !.ok = TRUE]
  ELSE IF Takes(x, "w") THEN [x EXCEPT !.fail = Tail(@), !.ok = FALSE, !.sys = Append(@, [k |-> "w", n |-> 9, r |-> -1, e |-> 5])]
  ELSE [x EXCEPT !.dev = @ \o x.q, !.q = <<>>, !.ok = TRUE, !.sys = Append(@, [k |-> "w", n |-> 9, r |-> 9, e |-> 0])]
SetTio(x, t) ==
  IF Takes(x, "s") THEN [x EXCEPT !.fail = Tail(@), !.ok = FALSE, !.sys = Append(@, [k |-> "s", e |-> 5])]
  ELSE [x EXCEPT !.tio = t, !.ok = TRUE]

Apply(x0, k, old) ==
  LET c == Cfg(All[k])
      x1 == SetTio(x0, [old.tio EXCEPT !.icanon = FALSE, !.echo = FALSE, !.icrnl = FALSE, !.inlcr = FALSE, !.vmin = 0, !.vtime = 0, !.isig = ~c.bs, !.ixon = c.cf])
  IN IF ~x1.ok THEN [x |-> x1, st |-> old]
     ELSE LET new == IF c.mo THEN "mot" ELSE "btn"
              x2 == IF c.ms THEN [x1 EXCEPT !.q = @ \o SetMouse(x1.lib.mouse, new), !.lib.mouse = new] ELSE x1
              s2 == IF c.ms THEN [old EXCEPT !.mouse = x1.lib.mouse] ELSE old
              x3 == IF c.kp THEN [x2 EXCEPT !.q = @ \o SetKeypad(TRUE), !.lib.keypad = TRUE] ELSE x2
              s3 == IF c.kp THEN [s2 EXCEPT !.keypad = IF x2.lib.keypad THEN "on" ELSE "off"] ELSE s2
              x4 == Flush(x3)
          IN IF ~x4.ok THEN [x |-> x4, st |-> s3]
             ELSE [x |-> [x4 EXCEPT !.disp = [y \in DOMAIN @ |-> IF y \in Owned(c) THEN Handler ELSE @[y]], !.lib.resume = k],
                   st |-> [s3 EXCEPT !.sigs = [y \in Owned(c) |-> x4.disp[y]]]]

Undo(x0, st) ==
  LET x1 == IF st.mouse # "same" THEN [x0 EXCEPT !.q = @ \o SetMouse(x0.lib.mouse, st.mouse), !.lib.mouse = st.mouse] ELSE x0
      x2 == IF st.keypad # "same" THEN [x1 EXCEPT !.q = @ \o SetKeypad(st.keypad = "on"), !.lib.keypad = st.keypad = "on"] ELSE x1
      x3 == Flush(x2)
      x4 == SetTio(x3, st.tio)
  IN [x4 EXCEPT !.disp = [y \in DOMAIN @ |-> IF y \in DOMAIN st.sigs THEN st.sigs[y] ELSE @[y]],
                !.lib.resume = st.resume, !.ok = x3.ok /\ x4.ok]

X0(f) == [tio |-> tio, disp |-> disp, lib |-> lib, q |-> q, dev |-> <<>>, sys |-> <<>>, fail |-> f, ok |-> TRUE]
State0(x) == [tio |-> x.tio, mouse |-> "same", keypad |-> "same", sigs |-> [y \in {} |-> 0], resume |-> x.lib.resume]

(* Becomes the new state, the event being e.                                  *)
Done(x, e, ops) ==
  /\ tio' = x.tio /\ disp' = x.disp /\ lib' = x.lib /\ q' = x.q
  /\ LET ev == e @@ [dev |-> x.dev, sys |-> x.sys, obs |-> Obs(x.tio, x.disp), rd |-> m.rd]
         r == SesStep(m, ev)
     IN why' = r.why /\ m' = r.s
  /\ hist' = hist \o ops
Script(f) == [i \in DOMAIN f |-> [op |-> "plan", k |-> f[i]]]

DoPrep(k, f) ==
  /\ Len(stack) < 3
  /\ LET x0 == IF f # <<>> /\ f[1] = "g" THEN [X0(Tail(f)) EXCEPT !.ok = FALSE, !.sys = <<[k |-> "g", e |-> 5]>>] ELSE X0(f)
         a == Apply(x0, k, State0(x0))
         x == IF ~x0.ok THEN x0 ELSE IF a.x.ok THEN a.x ELSE [Undo(a.x, a.st) EXCEPT !.ok = FALSE]
     IN /\ Done(x, All[k] @@ [op |-> "prep", r |-> IF x.ok THEN "ok" ELSE "err"],
                Script(f) \o <<[op |-> "prep", k |-> k]>>)
        /\ stack' = IF x.ok THEN Append(stack, a.st) ELSE stack

DoRest(f) ==
  /\ stack # <<>>
  /\ LET x == Undo(X0(f), stack[Len(stack)]) IN
     Done(x, [op |-> "rest", r |-> IF x.ok THEN "ok" ELSE "err"], Script(f) \o <<[op |-> "rest"]>>)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)

DoFlush ==
  /\ q # <<>> /\ LET x == Flush(X0(<<>>)) IN Done(x, [op |-> "unlockw", r |-> "ok"], <<[op |-> "lockw"], [op |-> "unlockw"]>>)
  /\ UNCHANGED stack

Stop ==   \* the shell resets the device
  /\ Interfere /\ stack # <<>> /\ q = <<>>
  /\ tio' = Cooked /\ UNCHANGED <<disp, lib, q, stack>>
  /\ m' = SesStep(SesStep(m, [op |-> "devreset", r |-> "ok", dev |-> <<>>, sys |-> <<>>, obs |-> Obs(tio, disp)]).s,
                  [op |-> "tioset", r |-> "ok", dev |-> <<>>, sys |-> <<>>, obs |-> Obs(Cooked, disp)]).s
  /\ hist' = Append(hist, [op |-> "stop"]) /\ UNCHANGED why

Cont1 ==
  /\ Interfere
  /\ LET h == disp["cont"] = Handler IN
     Done([X0(<<>>) EXCEPT !.lib.pend = @ \/ h], [op |-> "sig", s |-> "cont", r |-> "ok", ret |-> [v |-> h]],
          <<[op |-> "sig", s |-> "cont"]>>)
  /\ UNCHANGED stack

DoRead ==
  /\ Interfere
  /\ LET x0 == X0(<<>>)
         k == lib.resume
         a == IF lib.pend /\ k # 0 THEN Apply(x0, k, State0(x0)).x ELSE x0
         x == [a EXCEPT !.lib.pend = FALSE]
         rep == lib.pend /\ k # 0 /\ "cont" \in Cfg(All[k]).rs
     IN Done(x, [op |-> "ev", r |-> "ok", ret |-> IF rep THEN [k |-> "sig", s |-> "cont"] ELSE [k |-> "none"]], <<[op |-> "ev"]>>)
  /\ UNCHANGED stack

Next == \/ \E k \in Cfgs, f \in Fails : DoPrep(k, f)
        \/ \E f \in Fails \ {<<"g">>} : DoRest(f)
        \/ DoFlush \/ Stop \/ Cont1 \/ DoRead
Spec == Init /\ [][Next]_vars
Steps == Len(SelectSeq(hist, LAMBDA o : o.op \notin {"plan", "lockw"}))
Bound == Steps < Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))
Allowed == why = ""
(* When nothing is prepared and all output delivered, nothing remains.        *)
Clean == (stack = <<>> /\ q = <<>> /\ ~Interfere) => disp = Disp0 /\ (Fails = {<<>>} => tio = Cooked) /\ m.D.modes = {} /\ ~m.D.kp
=============================================================================
