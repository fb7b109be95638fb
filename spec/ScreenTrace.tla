---------------------------- MODULE ScreenTrace -----------------------------
(* Executions of a Screen on a device (C02, C03, C04).                        *)
EXTENDS ScreenBuf, Common, Replay

Start0(e) ==
  [ph |-> "none", h |-> e.h, w |-> e.w, D |-> DevNew(MaxI(1, e.h), MaxI(1, e.w), Junk), buf |-> BufNew(e.h, e.w),
   stale |-> FALSE, sup |-> ToSet(e.sup), vis |-> TRUE, winch |-> FALSE]

(* After a successful refresh the display is the buffer.  The size of the     *)
(* device may be reported as having no lines or columns (some systems start   *)
(* terminals that way): nothing can then be shown, but nothing may fail.      *)
Differs(s) ==
  LET want == Shown(s.buf, s.sup) cur == ShownCursor(s.buf) IN
  CASE s.stale \/ s.h # s.buf.h \/ s.w # s.buf.w \/ s.h = 0 \/ s.w = 0 -> ""
    [] s.D.bad -> "output outside the understood repertoire"
    [] s.D.g # want ->
         LET i == CHOOSE i \in DOMAIN want : s.D.g[i] # want[i]
                     /\ \A j \in DOMAIN want : j < i => s.D.g[j] = want[j]
         IN "cell " \o ToString(i - 1) \o " shows " \o ToString(s.D.g[i])
            \o " instead of " \o ToString(want[i])
    [] s.D.l # cur[1] \/ s.D.c # cur[2] \/ s.D.pw ->
         "cursor at " \o ToString(<<s.D.l, s.D.c>>) \o " instead of " \o ToString(cur)
    [] s.D.vis # s.vis -> "cursor visibility"
    [] OTHER -> ""

Checked(s, e, cond) ==
  IF ~cond THEN OkS(s)
  ELSE IF e.pend # 0 THEN BadS(s, "incomplete output")
  ELSE LET w == Differs(s) IN IF w = "" THEN OkS(s) ELSE BadS(s, "display: " \o w)

(* The size of the device changed during the event: right after it was asked  *)
(* for, while a read waited, or between two of its steps; the program is told *)
(* by a signal.                                                               *)
Changes(e) == SelectSeq(e.sys, LAMBDA x : x.k = "wz")
Sized(s, e) ==
  LET z == Changes(e) IN
  IF z = <<>> THEN s
  ELSE LET x == z[Len(z)]
       IN [s EXCEPT !.h = x.l, !.w = x.c, !.D = DevResize(@, MaxI(1, x.l), MaxI(1, x.c)), !.stale = TRUE, !.winch = TRUE]
Had(s, e, y, x) == (y = s.h /\ x = s.w) \/ \E i \in DOMAIN Changes(e) : y = Changes(e)[i].l /\ x = Changes(e)[i].c

Reads == {"ev", "raw"}
Refreshing == {"sunlockw"}

Ret(s, e) ==
  CASE e.op = "size" -> IF e.ret.l = s.buf.h /\ e.ret.c = s.buf.w THEN OkS(s)
                        ELSE BadS(s, "size() is not the size of the screen")
    [] e.op = "cursor" -> IF e.ret.l = s.buf.l /\ e.ret.c = s.buf.c THEN OkS(s)
                          ELSE BadS(s, "cursor() is " \o ToString(<<e.ret.l, e.ret.c>>)
                               \o " instead of " \o ToString(<<s.buf.l, s.buf.c>>))
    [] OTHER -> OkS(s)

Step0(s0, e) ==
  LET ab == Abnormal(e) IN
  IF ab # "" THEN BadS(s0, ab)
  ELSE LET s == [s0 EXCEPT !.D = Feed(@, e.dev)] IN
  CASE e.op \in {"wplan", "wsplan", "szplan", "splan", "aplan", "rplan", "stdfds", "in", "sig", "mark", "lock", "slockw", "slockr", "sunlockr"} ->
         IF e.r = "ok" THEN OkS(s) ELSE BadS(s, "failed")
    [] e.op = "open" -> IF e.r = "ok" THEN OkS(s) ELSE BadS(s, "open failed")
    [] e.op = "screen" ->
         IF e.r # "ok" THEN BadS(s, "screen failed")
         ELSE IF Changes(e) = <<>> THEN OkS([s EXCEPT !.buf = BufNew(s.h, s.w), !.ph = "screen", !.stale = FALSE])
         ELSE IF ~Had(s, e, e.ret.l, e.ret.c) THEN BadS(s, "the screen has not the size of the device")
         ELSE LET t == Sized(s, e) IN
              OkS([t EXCEPT !.buf = BufNew(e.ret.l, e.ret.c), !.ph = "screen", !.winch = e.ret.l # t.h \/ e.ret.c # t.w])
    [] e.op = "winsz" ->
         OkS([s EXCEPT !.h = e.l, !.w = e.c, !.D = DevResize(@, MaxI(1, e.l), MaxI(1, e.c)), !.stale = TRUE, !.winch = @ \/ Get(e, "sig", FALSE)])
    [] e.op \in Reads ->
         IF e.r = "block" THEN IF s.winch \/ Changes(e) # <<>> THEN BadS(s, "resize not reported") ELSE OkS(s)
         ELSE IF e.r # "ok" THEN BadS(s, "read failed")
         ELSE IF e.ret.k = "resize" THEN
           IF ~Had(s, e, e.ret.l, e.ret.c) THEN BadS(s, "resize event with a wrong size")
           ELSE IF Changes(e) # <<>> THEN
             LET t == Sized(s, e) IN
             OkS([t EXCEPT !.buf = BufResize(@, e.ret.l, e.ret.c), !.winch = e.ret.l # t.h \/ e.ret.c # t.w])
           ELSE OkS([s EXCEPT !.buf = BufResize(@, e.ret.l, e.ret.c), !.stale = FALSE,
                              !.winch = FALSE, !.D = [DevResize(@, s.D.h, s.D.w) EXCEPT !.bad = FALSE]])
         ELSE IF e.ret.k = "none" /\ (s.winch \/ \E i \in DOMAIN Changes(e) : Changes(e)[i].t < e.clk) THEN BadS(s, "resize not reported")
         ELSE OkS(Sized(s, e))
    [] e.op \in BufOps ->
         IF e.r # "ok" THEN BadS(s, "failed") ELSE OkS([s EXCEPT !.buf = BufOp(@, e)])
    [] e.op = "mac" ->
         IF e.ret.evs # e.evs THEN BadS(s, "a macro evaluates other elements than those written")
         ELSE LET s2 == [s EXCEPT !.buf = FoldLeft(BufOp, @, e.els)]
              IN Checked(s2, e, e.on = "s" /\ ~HardErr(e))
    [] e.op \in {"size", "cursor"} -> IF e.r # "ok" THEN BadS(s, "failed") ELSE Ret(s, e)
    [] e.op = "curmode" -> OkS([s EXCEPT !.vis = (e.m # "invisible" \/ Hiding \notin s.sup)])
    [] e.op = "refresh" ->
         IF e.r = "err" /\ ~HardErr(e) THEN BadS(s, "refresh failed without a device error")
         ELSE Checked(s, e, e.r = "ok")
    [] e.op = "sunlockw" -> Checked(s, e, ~HardErr(e))
    [] e.op = "panic" ->  \* with a write guard, which is released by the unwinding
         LET InPanic(t, x) == IF x.op = "curmode" THEN [t EXCEPT !.vis = (x.m # "invisible" \/ Hiding \notin s.sup)]
                              ELSE IF x.op \in BufOps THEN [t EXCEPT !.buf = BufOp(@, x)] ELSE t
         IN Checked(FoldLeft(InPanic, s, e.ops), e, ~HardErr(e))
    [] e.op = "drops" -> OkS([s EXCEPT !.ph = "gone"])
    [] OTHER -> BadS(s, "unknown event " \o e.op)

=============================================================================
