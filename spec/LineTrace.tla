------------------------------ MODULE LineTrace ------------------------------
(* Executions of a Terminal used line by line (C05, C06, C20): the display    *)
(* produced by the bytes at the device equals the ideal display.              *)
EXTENDS LineOps, Replay

Start0(e) ==
  [M |-> DevNew(e.h, e.w, Junk), D |-> DevNew(e.h, e.w, Junk), sup |-> ToSet(e.sup), guard |-> FALSE,
   dirty |-> FALSE]   \* output was left undelivered by a device error

(* Everything accepted has to be on the device unless a write guard is held.  *)
(* After a device error the rest is delivered by the next operation that      *)
(* flushes; one that has nothing to write itself need not.                    *)
Synced(s0, e) ==
  LET s == [s0 EXCEPT !.dirty = FALSE] IN
  IF s0.M.bad \/ HardErr(e) THEN OkS([s0 EXCEPT !.dirty = @ \/ HardErr(e)])
  ELSE IF s0.dirty /\ e.op \notin {"flush", "unlockw", "panic"} /\ (\A i \in DOMAIN e.sys : e.sys[i].k # "w") THEN OkS(s0)
  ELSE IF e.pend # 0 THEN BadS(s, "incomplete output")
  ELSE LET w == Unlike(s.M, s.D) IN IF w = "" THEN OkS(s) ELSE BadS(s, "display: " \o w)

Step0(s0, e) ==
  LET ab == Abnormal(e) IN
  IF ab # "" THEN BadS(s0, ab)
  ELSE LET s == [s0 EXCEPT !.D = Feed(@, e.dev)] IN
  CASE e.op = "flush" /\ e.r = "err" /\ HardErr(e) -> OkS(s)
    [] e.op = "flush" /\ e.r = "ok" /\ HardErr(e) -> BadS(s, "flush hides a device error")
    \* what the terminal type cannot do is an error and changes nothing
    [] e.r = "err" /\ Unable(e, s.sup) -> IF s.guard THEN OkS(s) ELSE Synced(s, e)
    [] e.r # "ok" -> BadS(s, "failed")
    [] e.op \in {"wplan", "in", "stdfds"} -> OkS(s)
    [] e.op = "open" -> Synced(s, e)
    [] e.op = "winsz" -> OkS([s EXCEPT !.D = DevResize(@, e.l, e.c), !.M = DevResize(@, e.l, e.c)])
    [] e.op = "size" -> IF e.ret.l = s.D.h /\ e.ret.c = s.D.w THEN OkS(s) ELSE BadS(s, "size() is not the size of the device")
    [] e.op = "lockw" -> Synced([s EXCEPT !.guard = TRUE], e)
    [] e.op = "flush" -> Synced(s, e)
    [] e.op = "unlockw" -> Synced([s EXCEPT !.guard = FALSE], e)
    [] e.op = "dropt" -> Synced([s EXCEPT !.M.vis = TRUE], e)
    [] e.op = "panic" ->  \* while a write guard was held: dropping that delivers what it has
         Synced([s EXCEPT !.M = FoldLeft(LAMBDA M, x : LineOp(M, x, s.sup), @, e.ops)], e)
    [] e.op = "mac" /\ e.cut >= 0 ->
         \* the device fails: the macro stops at the element that fails, later ones are not evaluated
         LET upto == SelectSeq(e.evs, LAMBDA j : j <= e.cut)
             stopped == ~e.ret.ok /\ e.ret.evs = upto
             all == e.ret.ok /\ e.ret.evs = e.evs
         IN IF stopped \/ (all /\ (e.on = "t" \/ ~HardErr(e))) THEN OkS(s)
            ELSE BadS(s, "a macro does not stop at the first error")
    [] e.op = "mac" /\ e.ret.evs # e.evs -> BadS(s, "a macro evaluates other elements than those written")
    [] e.op = "mac" /\ ~e.ret.ok /\ ~HardErr(e) -> BadS(s, "a macro fails without an error of the device")
    [] e.op = "mac" ->
         LET s2 == [s EXCEPT !.M = FoldLeft(LAMBDA M, x : LineOp(M, x, s.sup), @, e.els)]
         IN IF s.guard THEN OkS([s2 EXCEPT !.dirty = @ \/ HardErr(e)]) ELSE Synced(s2, e)
    [] e.op \in LineCalls ->
         LET s2 == [s EXCEPT !.M = LineOp(@, e, s.sup)]
         IN IF s.guard THEN OkS([s2 EXCEPT !.dirty = @ \/ HardErr(e)]) ELSE Synced(s2, e)
    [] OTHER -> BadS(s, "unknown event " \o e.op)
=============================================================================
