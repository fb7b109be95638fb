-------------------------------- MODULE Excl --------------------------------
(* Design of the locking: a terminal has a lock for reading (R) and one for   *)
(* writing (W), a screen also one for its contents (D), taken after W.  Every *)
(* call takes the locks it needs and keeps them to its end; a guard keeps     *)
(* them until it is released, and its output is delivered then.               *)
(* Threads run small programs, one step at a time in any order; the steps are *)
(* those between the points at which the harness can switch threads.          *)
(* Checked: every execution is allowed by ConcRules, and no deadlock.         *)
EXTENDS ConcRules, Json
CONSTANTS Kind,      \* "t" or "s"
          N,         \* number of threads
          MaxLen,    \* operations per program (a guarded block counts as one)
          Broken,    \* "" or a mistake in the design, to see that it is found
          Gen

VARIABLES prog, pc, stg, ix, held, D, buf, outb, pen, inp, mon, why, hist
vars == <<prog, pc, stg, ix, held, D, buf, outb, pen, inp, mon, why, hist>>
View == <<prog, pc, stg, ix, held, D, buf, outb, pen, inp, mon, why>>

H == 1
Wd == 4
T == 1..N
S == IF Kind = "t" THEN "" ELSE "s"
On(x) == IF Kind = "t" THEN x ELSE CASE x = "t" -> "s" [] x = "w" -> "g" [] OTHER -> "q"
Str(t, o, n) == [op |-> "str", on |-> o, t |-> [i \in 1..n |-> <<96 + 3 * t + i, 1>>]]
P(n) == [op |-> S \o n]

(* Building blocks of programs.                                               *)
Blocks(t) ==
  {<<Str(t, On("t"), 2)>>, <<[op |-> "fg", on |-> On("t"), c |-> 1 + t]>>,
   <<[op |-> "ev", on |-> On("t"), to |-> 0]>>, <<P("probew")>>,
   <<P("lockw"), Str(t, On("w"), 1), Str(t, On("w"), 2), P("unlockw")>>,
   <<P("lockr"), [op |-> "ev", on |-> On("r"), to |-> 0], Str(t, On("t"), 1), P("unlockr")>>,
   <<P("trylockw"), Str(t, On("w"), 1), P("unlockw")>>,
   <<P("lockr"), P("lockw"), Str(t, On("w"), 1), P("unlockw"), P("unlockr")>>}
  \cup (IF Kind = "t" THEN {} ELSE {<<[op |-> "refresh", on |-> "s"]>>, <<P("lockw"), Str(t, "g", 1), [op |-> "refresh", on |-> "g"], P("unlockw")>>})
Programs(t) == IF MaxLen = 1 THEN Blocks(t) ELSE Blocks(t) \cup {a \o b : a \in Blocks(t), b \in Blocks(t)}

LocksOf(o) ==
  CASE o.op \in LocksW -> IF Kind = "t" THEN <<"W">> ELSE <<"W", "D">>
    [] o.op \in LocksR -> <<"R">>
    [] o.op = "ev" -> IF o.on \in {"t", "s"} THEN <<"R">> ELSE <<>>
    [] o.op \in TriesW -> IF Kind = "t" THEN <<"W">> ELSE <<"W", "D">>
    [] o.op \in TriesR -> <<"R">>
    [] o.op \in {"str", "fg"} -> IF o.on = "t" THEN <<"W">> ELSE IF o.on = "s" THEN <<"D">> ELSE <<>>
    [] o.op = "refresh" -> IF o.on = "s" THEN (IF Broken = "order" THEN <<"D", "W">> ELSE <<"W", "D">>) ELSE <<>>
    [] OTHER -> <<>>

Owner(l) == IF \E t \in T : l \in held[t] THEN CHOOSE t \in T : l \in held[t] ELSE 0
Op(t) == prog[t][pc[t]]
(* The calls whose locks outlast them.                                        *)
Keeps(o) == o.op \in LocksW \cup LocksR \cup {S \o "trylockw", S \o "trylockr"}

Init ==
  /\ prog \in {f \in [T -> UNION {Programs(t) : t \in T}] : \A t \in T : f[t] \in Programs(t)}
  /\ pc = [t \in T |-> 1] /\ stg = [t \in T |-> "op"] /\ ix = [t \in T |-> 0]
  /\ held = [t \in T |-> {}]
  /\ D = DevNew(H, Wd, Blank) /\ buf = BufNew(H, Wd) /\ outb = <<>> /\ pen = 0
  /\ inp = <<120, 121>>
  /\ mon = [ConcStart([h |-> H, w |-> Wd, sup |-> <<1, 2, 4, 8, Hiding, Colours>>]) EXCEPT !.kind = Kind, !.D = DevNew(H, Wd, Blank),
              !.L = {[m |-> IF Kind = "t" THEN DevNew(H, Wd, Blank) ELSE BufNew(H, Wd), inp |-> <<120, 121>>, vis |-> TRUE, done |-> {}]}]
  /\ why = "" /\ hist = <<>>

(* ---- what the design writes ------------------------------------------------ *)
OutOf(o) ==   \* tokens of a terminal operation
  CASE o.op = "str" -> [i \in DOMAIN o.t |-> TextToken(o.t[i])]
    [] o.op = "fg" -> IF pen = o.c THEN <<>> ELSE <<[o |-> "sgr", p |-> <<29 + o.c>>]>>
    [] OTHER -> <<>>
(* Repainting: the cells in which the display is not the buffer.               *)
Repaint ==
  LET want == Shown(buf, {1, 2, 4, 8, Hiding, Colours})
      cell(i) == IF D.g[i] = want[i] THEN <<>>
                 ELSE <<[o |-> "sgr", p |-> <<0>>], [o |-> "cup", l |-> 0, c |-> i - 1]>>
                      \o (IF want[i].f = 0 THEN <<>> ELSE <<[o |-> "sgr", p |-> <<29 + want[i].f>>]>>)
                      \o <<[o |-> "put", c |-> want[i].t[1], w |-> 1]>>
      cells == FoldLeft(LAMBDA a, i : a \o cell(i), <<>>, [i \in 1..(H * Wd) |-> i])
      cur == ShownCursor(buf)
  IN IF cells = <<>> /\ <<D.l, D.c>> = cur /\ ~D.pw THEN <<>>
     ELSE cells \o <<[o |-> "cup", l |-> cur[1], c |-> cur[2]]>>

EvBegin(t, o, fut, ncw) ==
  [x \in DOMAIN o \cup {"op", "what", "th", "fut", "ncw"} |->
     CASE x = "op" -> "begin" [] x = "what" -> o.op [] x = "th" -> t [] x = "fut" -> fut [] x = "ncw" -> ncw [] OTHER -> o[x]]
EvEnd(t, o, ret) ==
  [x \in DOMAIN o \cup {"op", "what", "th", "r", "ret"} |->
     CASE x = "op" -> "end" [] x = "what" -> o.op [] x = "th" -> t [] x = "r" -> "ok" [] x = "ret" -> ret [] OTHER -> o[x]]
EvCw(t, toks, last) == [op |-> "cw", th |-> t, dev |-> toks, last |-> last, pend |-> 0]

Tell(evs) ==
  LET r == FoldLeft(LAMBDA a, e : IF a.why # "" THEN a ELSE ConcStep(a.s, e), [s |-> mon, why |-> ""], evs)
  IN mon' = r.s /\ why' = r.why

Unit == [k |-> "unit"]
Lk(v) == [k |-> "lock", v |-> v]
Key(c) == [k |-> "key", key |-> "Char", c |-> c]
(* What the call will return and how often it writes: guessed at its           *)
(* beginning; wrong guesses come to nothing.                                   *)
Futs(o) ==
  CASE o.op = "ev" -> {[k |-> "none"], Key(120), Key(121)}
    [] o.op \in Tries -> {Lk("ok"), Lk("busy")}
    [] o.op \in LocksW \cup LocksR -> {Lk("ok")}
    [] OTHER -> {Unit}
Ncws(o) ==
  CASE o.op = "str" /\ o.on = "t" -> {2}
    [] o.op \in {"fg", "refresh"} /\ o.on \in {"t", "s", "g"} -> IF Kind = "s" /\ o.op = "fg" THEN {0} ELSE {0, 2}
    [] o.op \in UnlocksW -> {0, 2}
    [] OTHER -> {0}

Go(t, st) == stg' = [stg EXCEPT ![t] = st]
Done(t) == /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Go(t, "op") /\ ix' = [ix EXCEPT ![t] = 0]
Release(t, ls) == held' = [held EXCEPT ![t] = @ \ ls]
Own(o) == {LocksOf(o)[i] : i \in DOMAIN LocksOf(o)}

(* The guard that the operation needs is not there (a try-lock failed): it is  *)
(* skipped, like in the harness.                                               *)
Lacks(t, o) == \/ ((Has(o, "on") /\ o.on \in {"w", "g"}) \/ o.op \in UnlocksW) /\ "W" \notin held[t]
               \/ ((Has(o, "on") /\ o.on \in {"r", "q"}) \/ o.op \in UnlocksR) /\ "R" \notin held[t]

GuardRet(t) == mon.cur[t].fut

Begins(t) ==
  /\ stg[t] = "op" /\ pc[t] <= Len(prog[t])
  /\ LET o == Op(t) IN
     IF Lacks(t, o) THEN /\ Done(t) /\ UNCHANGED <<prog, held, D, buf, outb, pen, inp, mon, why>>
     ELSE \E fut \in Futs(o), ncw \in Ncws(o) :
          /\ Tell(<<EvBegin(t, o, fut, ncw)>>)
          /\ Go(t, IF LocksOf(o) = <<>> THEN "work" ELSE IF o.op \in Tries THEN "try" ELSE "want")
          /\ ix' = [ix EXCEPT ![t] = 1]
          /\ UNCHANGED <<prog, pc, held, D, buf, outb, pen, inp>>

Acquires(t) ==
  /\ stg[t] = "want"
  /\ LET o == Op(t)
         l == LocksOf(o)[ix[t]]
     IN /\ Owner(l) = 0
        /\ held' = [held EXCEPT ![t] = @ \cup {l}]
        /\ IF ix[t] < Len(LocksOf(o)) THEN Go(t, "more") /\ ix' = [ix EXCEPT ![t] = @ + 1]
           ELSE Go(t, "work") /\ UNCHANGED ix
        /\ UNCHANGED <<prog, pc, D, buf, outb, pen, inp, mon, why>>

More(t) ==
  /\ stg[t] = "more" /\ Go(t, IF Op(t).op \in Tries THEN "try" ELSE "want")
  /\ UNCHANGED <<prog, pc, ix, held, D, buf, outb, pen, inp, mon, why>>

TryIt(t) ==
  /\ stg[t] = "try"
  /\ LET o == Op(t)
         l == LocksOf(o)[ix[t]]
         mine == {LocksOf(o)[i] : i \in 1..(ix[t] - 1)}
     IN IF Owner(l) = 0
        THEN /\ held' = [held EXCEPT ![t] = @ \cup {l}]
             /\ IF ix[t] < Len(LocksOf(o)) THEN Go(t, "more") /\ ix' = [ix EXCEPT ![t] = @ + 1]
                ELSE Go(t, "work") /\ UNCHANGED ix
             /\ UNCHANGED <<prog, pc, D, buf, outb, pen, inp, mon, why>>
        ELSE /\ GuardRet(t).v = "busy"
             /\ Release(t, IF Broken = "tryleak" THEN {} ELSE mine)
             /\ Tell(<<EvEnd(t, o, Lk("busy"))>>) /\ Done(t)
             /\ UNCHANGED <<prog, D, buf, outb, pen, inp>>

(* The work of a call once it has its locks; writing needs further steps.      *)
Writes(t, toks) == /\ Len(toks) > 0 /\ mon.cur[t].ncw = 2
                   /\ outb' = toks /\ Go(t, "write")
Silently(t, toks) == toks = <<>> /\ mon.cur[t].ncw = 0

Works(t) ==
  /\ stg[t] = "work"
  /\ LET o == Op(t)
         direct == ~Keeps(o) /\ LocksOf(o) # <<>>
         rel == IF direct THEN Own(o) ELSE {}
         fin(ret) == Tell(<<EvEnd(t, o, ret)>>) /\ Done(t)
     IN
     CASE o.op \in LocksW \cup LocksR ->
            /\ fin(Lk("ok")) /\ UNCHANGED <<prog, held, D, buf, outb, pen, inp>>
       [] o.op \in Tries ->
            /\ GuardRet(t).v = "ok"
            /\ Release(t, IF Keeps(o) THEN {} ELSE Own(o))
            /\ fin(Lk("ok")) /\ UNCHANGED <<prog, D, buf, outb, pen, inp>>
       [] o.op = "ev" ->
            /\ GuardRet(t) = (IF inp = <<>> THEN [k |-> "none"] ELSE Key(Head(inp)))
            /\ inp' = IF inp = <<>> THEN inp ELSE Tail(inp)
            /\ Release(t, rel) /\ fin(GuardRet(t)) /\ UNCHANGED <<prog, D, buf, outb, pen>>
       [] o.op \in UnlocksR ->
            /\ Release(t, {"R"}) /\ fin(Unit) /\ UNCHANGED <<prog, D, buf, outb, pen, inp>>
       [] Kind = "t" /\ o.op \in {"str", "fg"} ->
            /\ pen' = IF o.op = "fg" THEN o.c ELSE pen
            /\ IF o.on = "w"
               THEN /\ outb' = outb \o OutOf(o) /\ fin(Unit) /\ UNCHANGED <<prog, held, D, buf, inp>>
               ELSE \/ /\ Writes(t, OutOf(o))
                       /\ held' = IF Broken = "early" THEN [held EXCEPT ![t] = @ \ {"W"}] ELSE held
                       /\ UNCHANGED <<prog, pc, ix, D, buf, inp, mon, why>>
                    \/ /\ Silently(t, OutOf(o)) /\ Release(t, rel) /\ fin(Unit) /\ UNCHANGED <<prog, D, buf, outb, inp>>
       [] Kind = "t" /\ o.op = "unlockw" ->
            \/ /\ Writes(t, outb) /\ UNCHANGED <<prog, pc, ix, held, D, buf, pen, inp, mon, why>>
            \/ /\ Silently(t, outb) /\ Release(t, {"W"}) /\ fin(Unit) /\ UNCHANGED <<prog, D, buf, outb, pen, inp>>
       [] Kind = "s" /\ o.op \in {"str", "fg"} ->
            /\ buf' = BufOp(buf, o) /\ Release(t, rel) /\ fin(Unit) /\ UNCHANGED <<prog, D, outb, pen, inp>>
       [] OTHER -> \* refresh, sunlockw
            \/ /\ Writes(t, Repaint) /\ UNCHANGED <<prog, pc, ix, held, D, buf, pen, inp, mon, why>>
            \/ /\ Silently(t, Repaint)
               /\ Release(t, IF o.op = "sunlockw" THEN {"W", "D"} ELSE rel)
               /\ fin(Unit) /\ UNCHANGED <<prog, D, buf, outb, pen, inp>>

(* The output leaves in two pieces.                                            *)
Writing(t) ==
  /\ stg[t] = "write"
  /\ LET n == Len(outb) \div 2
         toks == SubSeq(outb, 1, n)
     IN /\ D' = Feed(D, toks)
        /\ outb' = SubSeq(outb, n + 1, Len(outb))
        /\ Tell(<<EvCw(t, toks, FALSE)>>)
        /\ Go(t, "write2")
        /\ UNCHANGED <<prog, pc, ix, held, buf, pen, inp>>
Written2(t) ==
  /\ stg[t] = "write2"
  /\ LET o == Op(t) IN
     /\ D' = Feed(D, outb) /\ outb' = <<>>
     /\ Tell(<<EvCw(t, outb, TRUE), EvEnd(t, o, Unit)>>)
     /\ Release(t, IF o.op \in UnlocksW THEN {"W", "D"} ELSE IF Keeps(o) THEN {} ELSE Own(o))
     /\ Done(t)
     /\ UNCHANGED <<prog, buf, pen, inp>>

Next == \E t \in T :
  /\ \/ Begins(t) \/ Acquires(t) \/ More(t) \/ TryIt(t) \/ Works(t) \/ Writing(t) \/ Written2(t)
  /\ hist' = Append(hist, t)

Spec == Init /\ [][Next]_vars

Allowed == why = ""
(* Whoever cannot go on waits for a lock; not all threads may.                  *)
Stuck(t) == stg[t] = "want" /\ Owner(LocksOf(Op(t))[ix[t]]) # 0
Finished(t) == stg[t] = "op" /\ pc[t] > Len(prog[t])
NoDeadlock == (\A t \in T : Finished(t) \/ Stuck(t)) => \A t \in T : Finished(t)
Clean == (\A t \in T : Finished(t)) => \A t \in T : held[t] = {}

Emit == Gen => PrintT("TEST " \o ToJson([p |-> prog, s |-> hist']))
=============================================================================
