-------------------------------- MODULE Input --------------------------------
(* Design of the reading side: a buffer of bytes read but not consumed, a set *)
(* of pending signals, and waits with a deadline that signals and             *)
(* interruptions do not shorten.  While a call waits, a plan says what        *)
(* happens.  Checked: every result is one InputRules allows.                  *)
EXTENDS InputRules, TLC, Json
CONSTANTS Family, Depth, Gen, Cap, PlanLen

VARIABLES dev, buf, bits, m, why, hist
vars == <<dev, buf, bits, m, why, hist>>
View == <<dev, buf, bits, SubSeq(m.S, m.pos + 1, Len(m.S)), m.rd - m.pos, m.cfg, m.pend, m.maybe, why>>

Keys == << <<<<27, 91, 65>>, "Up", 0>>, <<<<27, 91, 49, 126>>, "Home", 0>>, <<<<27, 91, 91, 65>>, "F", 1>> >>
Chunks == CASE Family = "bytes" -> {<<97>>, <<27>>, <<27, 91>>, <<27, 91, 65>>, <<91, 65>>, <<91, 91>>, <<65, 195>>, <<195>>, <<169>>, <<226, 130>>, <<255>>, <<1, 97>>}
            [] Family = "raw" -> {<<97>>, <<27, 91>>, <<65, 195>>, <<169, 98, 99>>, <<255, 97>>}
            [] Family = "sig" -> {<<97>>}
            [] OTHER -> {<<97>>, <<195>>}
Sigs == CASE Family = "sig" -> {"int", "quit", "winch", "cont"} [] Family = "time" -> {"int", "quit"} [] OTHER -> {}
Sets == CASE Family = "sig" -> {{}, {"int"}, {"int", "quit", "cont"}} [] Family = "time" -> {{"int"}} [] OTHER -> {}
Steps == CASE Family = "time" -> {0, 1, 2, 3} [] OTHER -> {1}
Tos == CASE Family = "time" -> {-1, 0, 2, 3} [] Family = "sig" -> {-1, 2} [] OTHER -> {0, 2}
Items == {[k |-> "in", ms |-> t, b |-> c] : t \in Steps, c \in Chunks}
         \cup {[k |-> "sig", ms |-> t, s |-> x] : t \in Steps, x \in Sigs}
         \cup (IF Family = "sig" THEN {[k |-> "race", s |-> x] : x \in Sigs} ELSE {})
         \cup (IF Family \in {"time", "sig"} THEN {[k |-> "int", ms |-> t] : t \in Steps} ELSE {})
Plans == UNION {[1..n -> Items] : n \in 0..PlanLen}
Ops == IF Family = "bytes" THEN {[op |-> "ev"]}
       ELSE IF Family = "raw" THEN {[op |-> "ev"], [op |-> "wait"], [op |-> "raw", cnt |-> 0], [op |-> "raw", cnt |-> 1], [op |-> "raw", cnt |-> 4]}
       ELSE {[op |-> "ev"], [op |-> "wait"], [op |-> "raw", cnt |-> 4]}

(* ---- the design ---------------------------------------------------------- *)
Hears(x) == m.cfg # <<>> /\ (x \in {"cont", "winch"} \/ \E i \in DOMAIN m.cfg : x \in m.cfg[i])
Reported == IF m.cfg = <<>> THEN {} ELSE m.cfg[Len(m.cfg)]

RECURSIVE ValidTo(_, _)
ValidTo(B, p) == LET c == Char1(B, p, Len(B)) IN IF c.k = "char" THEN ValidTo(B, p + c.n) ELSE p
KeyIs(p) == {i \in DOMAIN Keys : Keys[i][1] = p}
Longer(p) == {i \in DOMAIN Keys : Len(Keys[i][1]) > Len(p) /\ SubSeq(Keys[i][1], 1, Len(p)) = p}
RECURSIVE Match(_, _, _)
Match(B, n, last) ==
  IF n > Len(B) THEN last
  ELSE LET p == SubSeq(B, 1, n) IN
    IF KeyIs(p) = {} /\ Longer(p) = {} THEN last
    ELSE IF Longer(p) = {} THEN CHOOSE i \in KeyIs(p) : TRUE
    ELSE Match(B, n + 1, IF KeyIs(p) = {} THEN last ELSE CHOOSE i \in KeyIs(p) : TRUE)
Peek(B) ==
  IF B = <<>> THEN [k |-> "none", n |-> 0]
  ELSE LET v == ValidTo(B, 0) IN
    IF v = 0 THEN (LET c == Char1(B, 0, Len(B)) IN [k |-> c.k, n |-> c.n])
    ELSE LET i == Match(SubSeq(B, 1, v), 1, 0) IN
      IF i # 0 THEN [k |-> "key", n |-> Len(Keys[i][1]), key |-> <<Keys[i][2], Keys[i][3]>>]
      ELSE LET c == Char1(B, 0, v) IN [k |-> "key", n |-> c.n, key |-> KeyOf(c.c)]

(* st = [dev, buf, bits, plan, clk, end (deadline, -1: none), sys]            *)
Rem(st) == IF st.end < 0 THEN 1000000 ELSE st.end - st.clk
Deliver(st, x) == IF Hears(x) THEN [st EXCEPT !.bits = @ \cup {x}, !.sys = Append(@, [k |-> "sig", s |-> x, t |-> st.clk])] ELSE st
RECURSIVE Select(_)
Select(st) ==
  LET it == IF st.plan = <<>> THEN [k |-> "end"] ELSE Head(st.plan)
      cut == [st EXCEPT !.plan = <<[it EXCEPT !.ms = @ - Rem(st)]>> \o Tail(st.plan), !.clk = st.end]
      nx == [st EXCEPT !.plan = Tail(@), !.clk = @ + it.ms]
  IN IF it.k = "race"
     THEN LET s2 == Deliver([st EXCEPT !.plan = Tail(@)], it.s) IN IF Hears(it.s) THEN [st |-> s2, r |-> "intr"] ELSE Select(s2)
     ELSE IF st.dev # <<>> THEN [st |-> st, r |-> "ready"]
     ELSE IF it.k = "end" THEN (IF st.end < 0 THEN [st |-> st, r |-> "block"] ELSE [st |-> [st EXCEPT !.clk = st.end], r |-> "timeout"])
     ELSE IF it.ms > Rem(st) THEN [st |-> cut, r |-> "timeout"]
     ELSE IF it.k = "in" THEN [st |-> [nx EXCEPT !.dev = it.b, !.sys = Append(@, [k |-> "arr", b |-> it.b, t |-> nx.clk])], r |-> "ready"]
     ELSE IF it.k = "int" THEN [st |-> nx, r |-> "intr"]
     ELSE IF Hears(it.s) THEN [st |-> Deliver(nx, it.s), r |-> "intr"]
     ELSE Select(nx)

RECURSIVE WaitLoop(_, _)
WaitLoop(st, S) ==
  IF st.bits \cap S # {} THEN [st |-> st, r |-> "ready"]
  ELSE LET x == Select(st) IN IF x.r = "intr" THEN WaitLoop(x.st, S) ELSE x
WaitUntil(st, S) == IF Peek(st.buf).k # "none" THEN [st |-> st, r |-> "ready"] ELSE WaitLoop(st, S)

Order == <<"int", "quit", "cont", "tstp", "winch">>
First(S) == Order[MinS({i \in DOMAIN Order : Order[i] \in S})]
Every == {"int", "quit", "cont", "tstp", "winch"}
Taken(st) == [st |-> [st EXCEPT !.bits = @ \ {First(st.bits)}], r |-> "sig", s |-> First(st.bits)]
(* r: sig (s), none, block, bytes (b)                                         *)
ReadInput(st, max) ==
  IF st.bits # {} THEN Taken(st)
  ELSE LET w == WaitUntil(st, Every) IN
    IF w.r = "timeout" THEN [st |-> w.st, r |-> "none"]
    ELSE IF w.r = "block" THEN w
    ELSE IF w.st.bits # {} THEN Taken(w.st)
    ELSE LET n == MinS({max, Len(w.st.dev)}) IN
      [st |-> [w.st EXCEPT !.dev = SubSeq(@, n + 1, Len(@)), !.sys = Append(@, [k |-> "r", n |-> max, r |-> n, e |-> 0])],
       r |-> "bytes", b |-> SubSeq(w.st.dev, 1, n)]

Unit == [k |-> "unit"]
None0 == [k |-> "none"]
Ret(st, ret) == [st |-> st, r |-> "ok", ret |-> ret]
SigRet(x) == IF x = "winch" THEN [k |-> "resize", l |-> m.h, c |-> m.w] ELSE [k |-> "sig", s |-> x]
Tell(x) == x = "winch" \/ x \in Reported

RECURSIVE ReadEvent(_)
ReadEvent(st) ==
  LET d == Peek(st.buf)
      s2 == [st EXCEPT !.buf = SubSeq(@, d.n + 1, Len(@))]
  IN IF d.k = "key" THEN Ret(s2, [k |-> "key", key |-> d.key[1], c |-> d.key[2]])
     ELSE IF d.k = "bad" THEN [st |-> s2, r |-> "err", ret |-> Unit]
     ELSE LET x == ReadInput(st, Cap) IN
       CASE x.r = "block" -> [st |-> x.st, r |-> "block", ret |-> Unit]
         [] x.r = "none" -> Ret(x.st, None0)
         [] x.r = "sig" -> IF Tell(x.s) THEN Ret(x.st, SigRet(x.s)) ELSE ReadEvent(x.st)
         [] OTHER -> ReadEvent([x.st EXCEPT !.buf = @ \o x.b])

RECURSIVE ReadRaw(_, _)
ReadRaw(st, max) ==
  IF st.buf # <<>>
  THEN LET n == MinS({max, Len(st.buf)}) IN
       Ret([st EXCEPT !.buf = SubSeq(@, n + 1, Len(@))], [k |-> "raw", n |-> n, bytes |-> SubSeq(st.buf, 1, n)])
  ELSE LET x == ReadInput(st, max) IN
    CASE x.r = "block" -> [st |-> x.st, r |-> "block", ret |-> Unit]
      [] x.r = "none" -> Ret(x.st, None0)
      [] x.r = "sig" -> IF Tell(x.s) THEN Ret(x.st, SigRet(x.s)) ELSE ReadRaw(x.st, max)
      [] OTHER -> Ret(x.st, [k |-> "raw", n |-> Len(x.b), bytes |-> x.b])

DoWait(st) ==
  LET x == WaitUntil(st, Reported \cup {"winch"}) IN
  IF x.r = "block" THEN [st |-> x.st, r |-> "block", ret |-> Unit]
  ELSE Ret(x.st, [k |-> "bool", v |-> x.r = "ready"])

(* ---- actions ------------------------------------------------------------- *)
Init == dev = <<>> /\ buf = <<>> /\ bits = {} /\ m = InNew(Keys, FALSE, 5, 7) /\ why = "" /\ hist = <<>>

Judge(e) == LET r == InStep(m, e) IN m' = r.s /\ why' = r.why
Say(s) == hist' = hist \o s
Ok(o) == o @@ [r |-> "ok", e |-> 0, ret |-> Unit, sys |-> <<>>]

In(b) == /\ dev' = dev \o b /\ UNCHANGED <<buf, bits>>
         /\ Judge(Ok([op |-> "in", bytes |-> b])) /\ Say(<<[op |-> "in", bytes |-> b]>>)
SigNow(x) ==
  /\ bits' = IF Hears(x) THEN bits \cup {x} ELSE bits
  /\ UNCHANGED <<dev, buf>>
  /\ Judge([op |-> "sig", s |-> x, r |-> "ok", e |-> 0, ret |-> [k |-> "bool", v |-> Hears(x)], sys |-> <<>>])
  /\ Say(<<[op |-> "sig", s |-> x]>>)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Prep(S) == /\ Len(m.cfg) < 2 /\ UNCHANGED <<dev, buf, bits>>
           /\ Judge(Ok([op |-> "prep", rs |-> SetSeq(S)])) /\ Say(<<[op |-> "prep", rs |-> SetSeq(S)]>>)
Rest == /\ m.cfg # <<>> /\ UNCHANGED <<dev, buf, bits>> /\ Judge(Ok([op |-> "rest"])) /\ Say(<<[op |-> "rest"]>>)

Do(o, to, p) ==
  LET st0 == [dev |-> dev, buf |-> buf, bits |-> bits, plan |-> p, clk |-> 0, end |-> to, sys |-> <<>>]
      x == IF o.op = "ev" THEN ReadEvent(st0) ELSE IF o.op = "wait" THEN DoWait(st0) ELSE ReadRaw(st0, o.cnt)
      e == o @@ [on |-> "t", r |-> x.r, e |-> IF x.r = "err" THEN -1 ELSE 0, ret |-> x.ret, sys |-> x.st.sys,
                 rd |-> m.rd + Len(dev) + FoldLeft(LAMBDA a, y : a + (IF y.k = "arr" THEN Len(y.b) ELSE 0), 0, x.st.sys) - Len(x.st.dev),
                 clk |-> x.st.clk, clkf |-> x.st.clk, inf |-> IF to < 0 THEN 1 ELSE 0,
                 tlo |-> IF to < 0 THEN 0 ELSE to, thi |-> IF to < 0 THEN 0 ELSE to]
  IN /\ dev' = x.st.dev /\ buf' = x.st.buf /\ bits' = x.st.bits
     /\ Judge(e) /\ Say(<<[op |-> "splan", p |-> p], o @@ [to |-> to]>>)

Next == /\ why = ""
        /\ \/ Family # "time" /\ \E b \in Chunks : In(b)
           \/ \E x \in Sigs : SigNow(x)
           \/ \E S \in Sets : Prep(S)
           \/ Family = "sig" /\ Rest
           \/ \E o \in Ops, to \in Tos, p \in Plans : Do(o, to, p)
Spec == Init /\ [][Next]_vars
Bound == Len(SelectSeq(hist, LAMBDA o : o.op # "splan")) < Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))
Allows == why = ""
=============================================================================
