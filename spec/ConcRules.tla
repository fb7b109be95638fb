------------------------------ MODULE ConcRules ------------------------------
(* Several threads use one terminal or screen (C14, C15).  An execution is    *)
(* allowed if the operations can be put in an order, each between its         *)
(* beginning and its end, such that what the device shows, what the buffer    *)
(* holds, what is read and what the calls return is the effect of executing   *)
(* them one after another, and while a thread holds a guard (at the level of  *)
(* the calls, from the end of the locking call to the beginning of the        *)
(* release) the others' operations on that side are not among them.           *)
(* s.L is the set of all states that the operations begun so far can have     *)
(* led to.                                                                    *)
EXTENDS ScreenBuf, LineOps

Threads == 1..4
NoOp == [what |-> "none"]

ConcStart(e) ==
  [kind |-> "none", D |-> DevNew(e.h, e.w, Junk), sup |-> ToSet(e.sup),
   L |-> {[m |-> DevNew(e.h, e.w, Junk), inp |-> <<>>, vis |-> TRUE, done |-> {}]},
   cur |-> [t \in Threads |-> NoOp], gw |-> 0, gr |-> 0, mid |-> 0,
   sig |-> FALSE]  \* a signal is pending: reading may need both locks

(* ---- classes of operations ---------------------------------------------- *)
LocksW == {"lockw", "slockw"}
LocksR == {"lockr", "slockr"}
TriesW == {"trylockw", "strylockw", "probew", "sprobew"}
TriesR == {"trylockr", "strylockr", "prober", "sprober"}
Tries == TriesW \cup TriesR
UnlocksW == {"unlockw", "sunlockw"}
UnlocksR == {"unlockr", "sunlockr"}
Reading == {"ev", "wait", "raw"}
Preparing == {"prep", "rest"}
(* Calls that produce output or change the buffer, and have to be contiguous. *)
OutCalls == LineCalls \cup BufOps \cup {"mac", "refresh", "flush", "unlockw", "sunlockw", "curmode"}
Trivial == LocksW \cup LocksR \cup Tries \cup UnlocksR \cup Preparing

(* Operations during which the lock may be held for a while.                  *)
MayR(e) == e.what \in LocksR \cup TriesR \cup UnlocksR \cup Reading \cup Preparing
MayW(e, sig) == e.what # "none" /\ (e.what \notin LocksR \cup TriesR \cup UnlocksR \cup Reading \/ (sig /\ e.what \in Reading))
May(e, c, sig) == IF c = "r" THEN MayR(e) ELSE MayW(e, sig)
Class(e) == IF e.what \in TriesR THEN "r" ELSE "w"

(* ---- what the device has to show ------------------------------------------ *)
Match(s, X) ==
  IF s.kind = "t" THEN X.m.bad \/ Unlike(X.m, s.D) = ""
  ELSE /\ ~s.D.bad /\ s.D.g = Shown(X.m, s.sup) /\ <<s.D.l, s.D.c>> = ShownCursor(X.m) /\ ~s.D.pw
       /\ s.D.vis = X.vis

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(a, n) == SubSeq(a, n + 1, Len(a))

(* The states after operation e in state X, given what it returned.           *)
Effect(s, e, X) ==
  LET o == [e EXCEPT !.op = e.what]
      ret == e.fut
      Fold(m, els) == IF s.kind = "t" THEN FoldLeft(LAMBDA M, x : LineOp(M, x, s.sup), m, els)
                      ELSE FoldLeft(BufOp, m, els)
  IN
  CASE e.what \in Reading ->
         IF ret.k = "none" \/ (ret.k = "bool" /\ ~ret.v) THEN IF X.inp = <<>> THEN {X} ELSE {}
         ELSE IF ret.k = "bool" THEN IF X.inp # <<>> THEN {X} ELSE {}
         ELSE IF ret.k = "key" THEN
           IF X.inp # <<>> /\ ret.key = "Char" /\ ret.c = Head(X.inp) THEN {[X EXCEPT !.inp = Tail(@)]} ELSE {}
         ELSE IF ret.k = "raw" THEN
           IF ret.n > 0 /\ ret.n <= e.cnt /\ Prefix(ret.bytes, X.inp) /\ Len(ret.bytes) = ret.n
           THEN {[X EXCEPT !.inp = Drop(@, ret.n)]} ELSE {}
         \* a pending signal or resize is reported once; the specification of C12 says when
         ELSE IF s.sig THEN {X} ELSE {}
    [] e.what = "size" -> IF ret.l = X.m.h /\ ret.c = X.m.w THEN {X} ELSE {}
    [] e.what = "cursor" -> IF ret.l = X.m.l /\ ret.c = X.m.c THEN {X} ELSE {}
    [] e.what = "mac" ->
         IF ret.k # "mac" \/ ret.evs # e.evs \/ ~ret.ok THEN {}
         ELSE LET Y == [X EXCEPT !.m = Fold(@, e.els)]
              IN IF e.on = "s" /\ ~Match(s, Y) THEN {} ELSE {Y}
    [] e.what \in {"refresh", "flush"} \cup UnlocksW -> IF Match(s, X) THEN {X} ELSE {}
    [] s.kind = "t" -> {[X EXCEPT !.m = LineOp(@, o, s.sup)]}
    [] e.what = "curmode" -> {[X EXCEPT !.vis = (e.m # "invisible")]}
    [] OTHER -> {[X EXCEPT !.m = BufOp(@, o)]}

Free(s, t, e) ==
  /\ e.what \in OutCalls => s.gw \in {0, t}
  /\ e.what \in Reading => s.gr \in {0, t}

Did(Xs, t) == {[X EXCEPT !.done = @ \cup {t}] : X \in Xs}

(* Operations that write to the device take effect at their last write; the   *)
(* others at any moment.                                                      *)
Silent(e) == e.what \notin Trivial \cup {"none"} /\ ~(e.what \in OutCalls /\ e.ncw > 0)

Step1(s, X) ==
  UNION {IF t \notin X.done /\ Silent(s.cur[t])
         THEN LET E == Effect(s, s.cur[t], X)
              IN IF Free(s, t, s.cur[t]) THEN Did(E, t)
                 ELSE Did(E \cap {X}, t)  \* what changes nothing may happen at any moment
         ELSE {} : t \in Threads}
RECURSIVE Closure(_, _)
Closure(s, L) ==
  LET N == UNION {Step1(s, X) : X \in L} \ L
  IN IF N = {} THEN L ELSE Closure(s, L \cup N)
Close(s) == [s EXCEPT !.L = Closure(s, @)]

NoOrder == "no order of the operations gives what the device shows and the calls returned"

(* ---- events ---------------------------------------------------------------- *)
Begin(s, e) ==
  LET t == e.th
      owner == IF Class(e) = "r" THEN s.gr ELSE s.gw
      rec == IF e.what \notin Tries THEN e
             ELSE [what |-> e.what, fut |-> e.fut, ncw |-> e.ncw,
                   poss |-> owner # 0 \/ \E u \in Threads \ {t} : May(s.cur[u], Class(e), s.sig),
                   sure |-> owner]
      released(v) == \/ e.what \in UnlocksW /\ Class(v) = "w" /\ v.sure = t
                     \/ e.what \in UnlocksR /\ Class(v) = "r" /\ v.sure = t
      upd(v) == IF v.what \notin Tries THEN v
                ELSE [v EXCEPT !.poss = @ \/ May(e, Class(v), s.sig), !.sure = IF released(v) THEN 0 ELSE @]
      c2 == [u \in Threads |-> IF u = t THEN rec ELSE upd(s.cur[u])]
      s2 == [s EXCEPT !.cur = c2,
                      !.gw = IF e.what \in UnlocksW THEN 0 ELSE @,
                      !.gr = IF e.what \in UnlocksR THEN 0 ELSE @,
                      !.L = IF e.what \in Trivial THEN Did(@, t) ELSE @]
  IN IF s.cur[t] # NoOp THEN BadS(s, "two operations of one thread at once") ELSE OkS(Close(s2))

Written(s, e) ==
  LET t == e.th
      o == s.cur[t]
      s2 == [s EXCEPT !.D = Feed(@, e.dev)]
      vis(X) == IF s.kind = "t" THEN Match(s2, X)
                ELSE IF o.what = "curmode" THEN s2.D.vis = X.vis ELSE Match(s2, X)
      NL == {Y \in UNION {IF t \in X.done \/ ~Free(s, t, o) THEN {} ELSE Effect(s2, o, X) : X \in s.L} : vis(Y)}
  IN CASE o = NoOp -> BadS(s, "output outside any operation")
       [] s.gw \notin {0, t} -> BadS(s, "output of a thread while another one holds the write guard")
       [] s.mid \notin {0, t} -> BadS(s, "the output of one call is interrupted by another thread")
       [] o.what \notin OutCalls -> OkS(Close(s2))
       [] ~e.last -> OkS(Close([s2 EXCEPT !.mid = t]))
       [] e.pend # 0 -> BadS(s, "incomplete output")
       [] NL = {} -> BadS(s, NoOrder)
       [] OTHER -> OkS(Close([s2 EXCEPT !.mid = 0, !.L = Did(NL, t)]))

Locked(s, t, c) ==
  LET owner == IF c = "r" THEN s.gr ELSE s.gw IN
  IF owner # 0 THEN BadS(s, IF c = "r" THEN "two read guards at once" ELSE "two write guards at once")
  ELSE OkS(IF c = "r" THEN [s EXCEPT !.gr = t] ELSE [s EXCEPT !.gw = t])

End(s, e) ==
  LET t == e.th
      o == s.cur[t]
      NL == {[X EXCEPT !.done = @ \ {t}] : X \in {Y \in s.L : t \in Y.done}}
      s2 == [s EXCEPT !.cur[t] = NoOp, !.L = NL]
      v == IF e.ret.k = "lock" THEN e.ret.v ELSE ""
  IN CASE e.r # "ok" -> BadS(s, "failed")
       [] NL = {} -> BadS(s, NoOrder)
       [] e.what \in LocksW \cup LocksR ->
            IF v # "ok" THEN BadS(s, "a lock is poisoned") ELSE Locked(s2, t, IF e.what \in LocksR THEN "r" ELSE "w")
       [] e.what \in Tries /\ v = "busy" ->
            IF o.poss THEN OkS(s2) ELSE BadS(s, "a try-lock fails although the lock is free")
       [] e.what \in Tries /\ v = "ok" ->
            IF o.sure # 0 THEN BadS(s, "a try-lock succeeds although the lock is held")
            ELSE IF e.what \in {"probew", "prober", "sprobew", "sprober"} THEN OkS(s2)
            ELSE Locked(s2, t, Class(o))
       [] e.what \in Tries -> BadS(s, "a lock is poisoned")
       [] OTHER -> OkS(s2)

(* Thread e.th waits for input and nothing else can happen.  Every operation  *)
(* that waits has to wait for a guard, or for the reading in progress.        *)
Waits(s, u) ==
  LET o == s.cur[u]
      needR == o.what \in LocksR \/ (o.what \in Reading \cup Preparing /\ o.on \in {"t", "s"})
  IN \/ s.gw \notin {0, u}
     \/ needR /\ (s.gr \notin {0, u} \/ \E v \in Threads \ {u} : s.cur[v].what \in Reading)

ThreadStep(s, e) ==
  CASE e.op = "begin" -> Begin(s, e)
    [] e.op = "end" -> End(s, e)
    [] e.op = "cw" -> Written(s, e)
    [] e.op = "blocked" -> IF s.cur[e.th].what \in Tries THEN BadS(s, "a try-lock blocks") ELSE OkS(s)
    [] e.op = "input" ->
         IF e.last /\ \E u \in Threads \ {e.th} : s.cur[u] # NoOp /\ ~Waits(s, u)
         THEN BadS(s, "an operation waits for input of another thread although no guard that it needs is held")
         ELSE OkS(s)
    [] e.op = "cpanic" -> BadS(s, "panic in a thread")
    [] OTHER -> OkS(s)

ThreadEvents == {"begin", "end", "cw", "blocked", "input", "cpanic", "acq", "rel", "tryok", "tryfail"}

(* Operations of the main thread, before and after the others.                *)
MainStep(s0, e) ==
  LET s == [s0 EXCEPT !.D = Feed(@, e.dev)]
      o == [x \in DOMAIN e \cup {"what", "fut", "ncw"} |->
              CASE x = "what" -> e.op [] x = "fut" -> e.ret [] x = "ncw" -> 0 [] OTHER -> e[x]]
      NL == UNION {Effect(s, o, X) : X \in s.L}
      NM == {X \in NL : Match(s, X)}
      res(S) == IF S = {} THEN BadS(s, NoOrder) ELSE OkS([s EXCEPT !.L = S])
  IN
  CASE e.r # "ok" -> BadS(s, "failed")
    [] e.op = "open" -> OkS([s EXCEPT !.kind = "t"])
    [] e.op = "screen" -> OkS([s EXCEPT !.kind = "s", !.L = {[X EXCEPT !.m = BufNew(s.D.h, s.D.w)] : X \in @}])
    [] e.op = "in" -> OkS([s EXCEPT !.L = {[X EXCEPT !.inp = @ \o e.bytes] : X \in @}])
    [] e.op \in {"sig", "winsz"} -> OkS([s EXCEPT !.sig = TRUE])
    [] e.op = "conc" -> OkS([s EXCEPT !.gw = 0, !.gr = 0])
    [] e.op \in {"wplan", "rplan", "splan", "prep", "rest", "dropt", "drops", "stdfds"} -> OkS(s)
    [] e.op \in Tries -> IF e.ret.v = "ok" THEN OkS(s) ELSE BadS(s, "a lock is still held after all guards were released")
    [] e.op \in Reading \cup {"size", "cursor"} -> res(NL)
    [] s.kind = "t" \/ e.op = "refresh" -> res(NM)
    [] OTHER -> res(NL)

ConcStep(s, e) ==
  LET ab == Abnormal(e) IN
  IF ab # "" THEN BadS(s, ab)
  ELSE IF e.op \in ThreadEvents THEN ThreadStep(s, e)
  ELSE MainStep(s, e)
=============================================================================
