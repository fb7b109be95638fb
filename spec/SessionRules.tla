---------------------------- MODULE SessionRules ----------------------------
(* Preparing, restoring, continuing and dropping (C10, C11, C16): what the    *)
(* terminal attributes, the signal dispositions and the modes of the device   *)
(* have to be after every operation, also when steps of it fail.              *)
EXTENDS Common

Cfg(e) == [bs |-> e.bs, cf |-> e.cf, kp |-> e.kp, ms |-> e.ms, mo |-> e.mo, rs |-> ToSet(e.rs)]
Sigs == {"int", "quit", "tstp", "cont", "winch"}
(* Dispositions: 0 default, 1 ignored, 2 the library's, 10.. the program's.   *)
Handler == 2
MouseModes == {1000, 1002, 1003, 1005, 1006, 1015}
Unknown == <<>>
Modes(D) == [modes |-> D.modes, track |-> D.track, kp |-> D.kp]

(* X is what the modes have to be once all output is delivered: <<them>>, or   *)
(* Unknown.  loose: something else has changed modes that preparations set.     *)
(* owed: some output may not have been delivered.                              *)
(* cont: the process was continued and this is not dealt with: "no", "must",  *)
(* or "may" (perhaps it is).                                                  *)
SesNew(e) ==
  LET D == DevNew(e.h, e.w, Blank) IN
  [D |-> D, tio |-> e.obs.tio, disp |-> e.obs.disp, std |-> e.obs.std, frames |-> <<>>, kind |-> "none", own |-> FALSE,
   mouse |-> e.mouse, haskp |-> e.haskp, hasalt |-> e.hasalt, X |-> <<Modes(D)>>, loose |-> FALSE, cont |-> "no", rd |-> 0, owed |-> FALSE,
   poison |-> {},                 \* locks that a thread held when it panicked
   nodb |-> Get(e, "nodb", FALSE), noset |-> Get(e, "noset", FALSE)]

TioFail(e) == \E i \in DOMAIN e.sys : e.sys[i].k = "s"
Writes(e) == {i \in DOMAIN e.sys : e.sys[i].k = "w" /\ e.sys[i].n > 0}
(* The last piece of output was taken completely: nothing is left undelivered. *)
Settled(s, e) ==
  /\ Writes(e) # {} /\ ~s.noset
  /\ LET i == CHOOSE j \in Writes(e) : \A k \in Writes(e) : k <= j IN e.sys[i].r = e.sys[i].n
Owed(s, e) ==
  IF Writes(e) = {} THEN s.owed
  ELSE LET i == CHOOSE j \in Writes(e) : \A k \in Writes(e) : k <= j IN e.sys[i].r # e.sys[i].n
WriteFailed(e) == \E i \in Writes(e) : e.sys[i].r <= 0 /\ e.sys[i].e # 4

(* ---- what a preparation asks for ----------------------------------------- *)
Quiet(t) == ~t.icanon /\ ~t.echo /\ ~t.icrnl /\ ~t.inlcr
(* Reading returns as soon as there is any input, also a single byte.         *)
AtOnce(t) == t.vmin <= 1 /\ t.vtime = 0
TioAs(t, c) == Quiet(t) /\ t.isig = ~c.bs /\ t.ixon = c.cf
Owned(c) == {"cont", "winch"} \cup (c.rs \cap Sigs)
DispAs(d, c) == \A x \in Owned(c) : d[x] = Handler
MouseAs(D, c) == c.ms => /\ {1002, 1006} \subseteq D.modes /\ D.track # 0
                         /\ c.mo => 1003 \in D.modes /\ D.track = 1003
(* Motion without buttons is reported only if asked for, here or outside.     *)
Unasked(s, c, D) == /\ c.ms /\ ~c.mo /\ D.track = 1003
                    /\ \A i \in DOMAIN s.frames : ~(s.frames[i].cfg.ms /\ s.frames[i].cfg.mo)
Asked(s, c, t, d, D) ==
  IF ~Quiet(t) THEN "not in unbuffered, unechoed mode without CR/LF translation"
  ELSE IF ~AtOnce(t) THEN "input is held back"
  ELSE IF t.isig # ~c.bs THEN "input generates signals although blocked, or does not although not blocked"
  ELSE IF t.ixon # c.cf THEN "flow control is not as requested"
  ELSE IF ~DispAs(d, c) THEN "a signal to be reported is not handled"
  ELSE IF s.haskp /\ c.kp /\ ~D.kp THEN "keypad mode is not enabled"
  ELSE IF s.mouse /\ ~MouseAs(D, c) THEN "mouse reporting is not enabled as requested"
  ELSE IF s.mouse /\ Unasked(s, c, D) THEN "motion is reported although not asked for"
  ELSE ""

SameDisp(a, b, S) == \A x \in S : a[x] = b[x]

Say2(s, cs) ==   \* the first complaint of a sequence
  LET bad == SelectSeq(cs, LAMBDA x : x # "") IN IF bad = <<>> THEN OkS(s) ELSE BadS(s, bad[1])
If(c, w) == IF c THEN w ELSE ""

(* ---- steps ---------------------------------------------------------------- *)
ModesOk(s, e) == If(s.X # Unknown /\ Settled(s, e) /\ <<Modes(s.D)>> # s.X, "modes of the terminal are not as before")
Now(s, e) == [s EXCEPT !.tio = e.obs.tio, !.disp = e.obs.disp, !.rd = Get(e, "rd", 0)]
Steady(s, e) == Say2(Now(s, e), <<If(e.obs.tio # s.tio, "terminal attributes change"), If(e.obs.disp # s.disp, "signal dispositions change"),
                          If(e.obs.std # s.std, "a standard stream is closed"), ModesOk(s, e)>>)

Top(s) == s.frames[Len(s.frames)]
Pop(s) == [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
Outer(s, f(_)) == \E i \in 1..(Len(s.frames) - 1) : f(s.frames[i])

Prepared(s, e) ==
  LET c == Cfg(e)
      f == [cfg |-> c, tio |-> s.tio, disp |-> s.disp, x |-> <<Modes(s.D)>>, dt |-> FALSE]
      s2 == [Now(s, e) EXCEPT !.frames = Append(@, f), !.X = IF s.owed THEN Unknown ELSE <<Modes(s.D)>>]
  IN Say2(s2, <<Asked(s, c, e.obs.tio, e.obs.disp, s.D),
                If(~SameDisp(e.obs.disp, s.disp, Sigs \ Owned(c)), "disposition of a signal changes that is not to be reported")>>)

(* old: the state before this event                                           *)
Prep(s, e, old) ==
  LET p == Prepared(s, e) IN
  IF e.r = "ok" THEN
    (IF e.op = "prep" /\ (WriteFailed(e) \/ TioFail(e)) THEN BadS(s, "an error is hidden")
     ELSE IF p.why # "" THEN p
     ELSE [p EXCEPT !.s.frames[Len(p.s.frames)].x =
            IF s.X # Unknown /\ ~s.loose THEN s.X ELSE IF old.owed THEN Unknown ELSE <<Modes(old.D)>>])
  ELSE Say2([Now(s, e) EXCEPT !.X = IF s.loose THEN Unknown ELSE @], <<If(~s.nodb /\ \A i \in DOMAIN e.sys : e.sys[i].k \notin {"g", "s", "w", "z"}, "failed without an error of the device"),
       If(e.obs.disp # s.disp, "signal dispositions changed by a failed prepare"),
       If(e.obs.tio # s.tio /\ ~(TioFail(e) /\ WriteFailed(e)), "terminal attributes changed by a failed prepare"),
       If(~s.loose, ModesOk(s, e))>>)

Undone(s, f, e) ==
  <<If(~TioFail(e) /\ (IF f.dt THEN \E k \in {"icanon", "echo", "isig", "ixon", "icrnl", "inlcr"} : e.obs.tio[k] # f.tio[k]
                       ELSE e.obs.tio # f.tio), "terminal attributes are not restored"),
    If(~SameDisp(e.obs.disp, f.disp, Owned(f.cfg)), "signal dispositions are not restored"),
    If(~SameDisp(e.obs.disp, s.disp, Sigs \ Owned(f.cfg)), "disposition of a signal changes that was not reported")>>

Restored(s, e) ==
  LET f == Top(s)
      s2 == [Pop(Now(s, e)) EXCEPT !.X = IF s.loose THEN Unknown ELSE f.x]
      end == s2.frames = <<>>
      s3 == IF end THEN [s2 EXCEPT !.loose = FALSE] ELSE s2
  IN [s |-> s3, cs |-> Undone(s, f, e) \o
      <<If(e.r = "err" /\ ~TioFail(e) /\ ~WriteFailed(e), "failed without an error of the device"),
        If(e.r = "ok" /\ s.kind # "screen" /\ (TioFail(e) \/ WriteFailed(e)), "an error is hidden"),
        ModesOk(s2, e),
        If(s.loose /\ Settled(s, e) /\ s.mouse /\ f.cfg.ms /\ ~Outer(s, LAMBDA g : g.cfg.ms)
           /\ (s.D.modes \cap MouseModes # {} \/ s.D.track # 0), "mouse reporting remains enabled"),
        If(s.loose /\ Settled(s, e) /\ f.cfg.kp /\ ~Outer(s, LAMBDA g : g.cfg.kp) /\ s.D.kp, "keypad mode remains enabled")>>]

(* A dropped terminal or screen.                                              *)
Gone(s, e) == <<If(Settled(s, e) /\ ~s.D.vis, "the cursor remains invisible"), If(Settled(s, e) /\ s.D.alt, "the device remains in screen mode"),
                If(s.own /\ e.obs.fds # 0, "the device remains open"), If(e.obs.std # s.std, "a standard stream is closed")>>

(* ---- reading ---------------------------------------------------------------- *)
SigCont(e) == \E i \in DOMAIN e.sys : e.sys[i].k = "sig" /\ e.sys[i].s = "cont"
Read(s, e) ==
  LET c == Top(s).cfg
      during == SigCont(e) /\ s.disp["cont"] = Handler
      got == e.rd > s.rd
      done == e.r = "block" \/ (e.r = "ok" /\ (e.ret.k = "none" \/ (e.ret.k = "sig" /\ e.ret.s = "cont")))
      all == Asked(s, c, e.obs.tio, e.obs.disp, s.D)
      \* it arrived after the last look at the signals: the next read sees it
      last == during /\ s.cont = "no" /\ e.r = "ok" /\ e.ret.k = "none"
              /\ \A i \in DOMAIN e.sys : e.sys[i].k = "sig" /\ e.sys[i].s = "cont" => e.sys[i].t = e.clk
      n == [Now(s, e) EXCEPT !.X = IF s.owed THEN Unknown ELSE <<Modes(s.D)>>]
  IN IF e.r = "err" THEN OkS([Now(s, e) EXCEPT !.X = Unknown, !.loose = TRUE, !.cont = IF @ # "no" \/ during THEN "may" ELSE "no"])
     ELSE IF s.frames = <<>> \/ (s.cont = "no" /\ ~during) THEN
       LET r == Steady(s, e) IN [r EXCEPT !.s.cont = "no"]
     ELSE IF last /\ all # "" THEN LET r == Steady(s, e) IN [r EXCEPT !.s.cont = "must"]
     ELSE IF done \/ (got /\ s.cont = "must" /\ ~during)
     THEN IF s.cont = "may" THEN OkS([n EXCEPT !.cont = "no"])
          ELSE Say2([n EXCEPT !.cont = IF during /\ s.cont # "no" THEN "may" ELSE "no"], <<If(all # "", "after being continued: " \o all)>>)
     ELSE Say2([n EXCEPT !.cont = "may"],
               <<If(e.obs.tio # s.tio /\ ~TioAs(e.obs.tio, c), "terminal attributes change"),
                 If(~SameDisp(e.obs.disp, s.disp, Sigs \ Owned(c)), "signal dispositions change")>>)

(* ---- locks --------------------------------------------------------------------- *)
WriteLocks == {"lockw", "trylockw", "slockw", "strylockw"}
ReadLocks == {"lockr", "trylockr", "slockr", "strylockr"}
Poisons(e) == IF e.g \in {"w", "g"} THEN "w" ELSE "r"
Locked(s, e) ==
  LET x == IF e.op \in WriteLocks THEN "w" ELSE "r" IN
  If(e.ret.v # IF x \in s.poison THEN "poison" ELSE "ok",
     IF x \in s.poison THEN "a lock that was held in a panic is not reported as poisoned" ELSE "a free lock is not handed out")

(* ---- all events --------------------------------------------------------------- *)
SesStep(s0, e) ==
  LET ab == Abnormal(e)
      s == [s0 EXCEPT !.D = Feed(@, e.dev), !.owed = Owed(s0, e)]
      quit == [Now(s, e) EXCEPT !.kind = "none"]
  IN
  CASE ab # "" -> BadS(s, ab)
    [] e.op \in {"prep"} -> Prep(s, e, s0)
    [] e.op = "rest" -> LET r == Restored(s, e) IN Say2(r.s, r.cs)
    [] e.op \in {"ev", "raw"} -> Read(s, e)
    [] e.op = "open" ->
         IF e.r = "ok" THEN Steady([s EXCEPT !.kind = "term", !.own = e.via = "path"], e)
         ELSE Say2(s, <<If(~s.nodb, "failed without an error of the device"), If(e.obs.fds # 0, "the device remains open"), Steady(s, e).why>>)
    [] e.op = "screen" ->
         LET own == IF e.via = "" THEN s.own ELSE e.via = "path" IN
         IF e.r = "ok"
         THEN LET r == Prep(s, e, s0) IN
              IF r.why # "" THEN r ELSE Say2([r.s EXCEPT !.kind = "screen", !.own = own],
                <<If(s.hasalt /\ Settled(s, e) /\ ~s.D.alt /\ s.X # Unknown, "not in screen mode")>>)
         ELSE LET r == Prep([s EXCEPT !.own = own], e, s0) IN
              IF r.why # "" THEN r ELSE Say2([r.s EXCEPT !.kind = "none"], Gone(r.s, e))
    [] e.op = "dropt" -> LET r == Steady(s, e) IN Say2([r.s EXCEPT !.kind = "none"], <<r.why>> \o Gone(s, e))
    [] e.op = "drops" -> LET r == Restored(s, e) IN Say2([r.s EXCEPT !.kind = "none"], r.cs \o Gone(s, e))
    [] e.op = "tioset" -> OkS([Now(s, e) EXCEPT !.frames = [i \in DOMAIN s.frames |-> [s.frames[i] EXCEPT !.dt = TRUE]]])
    [] e.op = "sigh" -> OkS(Now(s, e))
    [] e.op = "devreset" -> OkS([Now(s, e) EXCEPT !.D.modes = {}, !.D.track = 0, !.D.kp = FALSE,
                                 !.X = Unknown, !.loose = s.frames # <<>>])
    [] e.op = "sig" ->
         LET r == Steady(s, e) IN
         IF e.s = "cont" /\ e.ret.v /\ s.disp["cont"] = Handler THEN [r EXCEPT !.s.cont = "must"] ELSE r
    [] e.op = "stdfds" -> OkS([Now(s, e) EXCEPT !.std = e.obs.std])
    [] e.op = "panic" -> LET r == Steady(s, e) IN [r EXCEPT !.s.poison = @ \cup {Poisons(e)}]
    [] e.op \in WriteLocks \cup ReadLocks -> LET r == Steady(s, e) IN Say2(r.s, <<Locked(s, e), r.why>>)
    [] e.op \in {"flush", "unlockw"} -> Steady(s, e)
    [] e.r = "err" /\ ~WriteFailed(e) -> BadS(s, "failed without an error of the device")
    [] OTHER -> Steady(s, e)
=============================================================================
