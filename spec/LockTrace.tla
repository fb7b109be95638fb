------------------------------ MODULE LockTrace ------------------------------
(* Executions of threads that keep the documented order of the locks (C15):   *)
(* every operation ends, and one that waits waits for a guard.                *)
EXTENDS ConcRules, Replay
Start0(e) == ConcStart(e)

Step0(s, e) ==
  LET ab == Abnormal(e)
      set(c, v) == IF c = "w" THEN [s EXCEPT !.gw = v] ELSE [s EXCEPT !.gr = v]
  IN
  CASE ab # "" -> BadS(s, ab)
    [] e.op = "begin" ->
         LET s2 == [s EXCEPT !.cur[e.th] = e]
         IN OkS(CASE e.what \in UnlocksW /\ s.gw = e.th -> [s2 EXCEPT !.gw = 0]
                  [] e.what \in UnlocksR /\ s.gr = e.th -> [s2 EXCEPT !.gr = 0]
                  [] OTHER -> s2)
    [] e.op = "end" ->
         LET s2 == [s EXCEPT !.cur[e.th] = NoOp]
             got == e.ret.k = "lock" /\ e.ret.v # "busy" /\ e.what \notin {"probew", "prober", "sprobew", "sprober"}
         IN OkS(CASE got /\ e.what \in LocksW \cup TriesW -> [s2 EXCEPT !.gw = e.th]
                  [] got /\ e.what \in LocksR \cup TriesR -> [s2 EXCEPT !.gr = e.th]
                  [] OTHER -> s2)
    [] e.op = "input" -> ThreadStep(s, e)
    [] e.op = "cpanic" -> BadS(s, "panic in a thread")
    [] e.op \in {"probew", "prober", "sprobew", "sprober"} /\ e.ret.v = "busy" ->
         IF Get(e, "ctx", "none") = "none" THEN BadS(s, "a lock is still held after all guards were released") ELSE OkS(s)
    [] OTHER -> OkS(s)
=============================================================================
