----------------------------- MODULE InputRules -----------------------------
(* Reading from a terminal: which results of read_event, read_raw and         *)
(* wait_event are allowed, given the bytes that have arrived, the signals     *)
(* that have arrived, and the time (C07, C08, C09, C12, C13).                 *)
EXTENDS Common, KeyRules, FiniteSets

MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- characters ---------------------------------------------------------- *)
(* Of a first byte: length of the character, range of the second byte.        *)
Lead(b) ==
  CASE b < 128 -> <<1, 0, 0>>
    [] b >= 194 /\ b <= 223 -> <<2, 128, 191>>
    [] b = 224 -> <<3, 160, 191>>
    [] b = 237 -> <<3, 128, 159>>
    [] b \in {225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 238, 239} -> <<3, 128, 191>>
    [] b = 240 -> <<4, 144, 191>>
    [] b \in {241, 242, 243} -> <<4, 128, 191>>
    [] b = 244 -> <<4, 128, 143>>
    [] OTHER -> <<0, 0, 0>>

None == [k |-> "none", n |-> 0]
Bad(n) == [k |-> "bad", n |-> n]
Code(B, p, n) ==
  CASE n = 1 -> B[p + 1]
    [] n = 2 -> (B[p + 1] - 192) * 64 + B[p + 2] - 128
    [] n = 3 -> (B[p + 1] - 224) * 4096 + (B[p + 2] - 128) * 64 + B[p + 3] - 128
    [] OTHER -> (B[p + 1] - 240) * 262144 + (B[p + 2] - 128) * 4096 + (B[p + 3] - 128) * 64 + B[p + 4] - 128

(* The character beginning after position p of the first m bytes of B:        *)
(* none (nothing or only a part of it there), bad (n bytes to be skipped).    *)
Char1(B, p, m) ==
  IF p >= m THEN None
  ELSE LET q == Lead(B[p + 1])
           wrong == {i \in 2..q[1] : p + i <= m /\ (IF i = 2 THEN B[p + i] < q[2] \/ B[p + i] > q[3]
                                                      ELSE B[p + i] < 128 \/ B[p + i] > 191)}
       IN IF q[1] = 0 THEN Bad(1)
          ELSE IF wrong # {} THEN Bad(MinS(wrong) - 1)
          ELSE IF p + q[1] > m THEN None
          ELSE [k |-> "char", n |-> q[1], c |-> Code(B, p, q[1])]

(* ---- mouse reports ------------------------------------------------------- *)
(* Numbers are <<high, low>> in base 10^6; at most 4294967295.                *)
NoNum == [ok |-> FALSE, v |-> <<0, 0>>, i |-> 0, end |-> 0]
RECURSIVE Num(_, _, _, _, _)
Num(B, i, m, v, some) ==
  IF i > m THEN NoNum
  ELSE IF B[i] >= 48 /\ B[i] <= 57
  THEN LET lo == v[2] * 10 + B[i] - 48
           x == <<v[1] * 10 + lo \div 1000000, lo % 1000000>>
       IN IF x[1] > 4294 \/ (x[1] = 4294 /\ x[2] > 967295) THEN NoNum ELSE Num(B, i + 1, m, x, TRUE)
  ELSE IF some THEN [ok |-> TRUE, v |-> v, i |-> i + 1, end |-> B[i]] ELSE NoNum

Minus1(v) == IF v[2] = 0 THEN <<v[1] - 1, 999999>> ELSE <<v[1], v[2] - 1>>
Bit(v, k) == (v[2] \div k) % 2 = 1      \* for k up to 64
Mods(v) == (IF Bit(v, 4) THEN {"shift"} ELSE {}) \cup (IF Bit(v, 8) THEN {"alt"} ELSE {}) \cup (IF Bit(v, 16) THEN {"ctrl"} ELSE {})
Action(v, end) ==
  LET x == IF v[1] # 0 THEN -1 ELSE (v[2] \div 32) * 32 + (v[2] % 4)
      y == IF end = 77 THEN "press" ELSE "release"
  IN CASE x \in {0, 1, 2, 3} -> <<y, x>>
       [] x = 64 -> <<"wheelup", 0>>
       [] x = 65 -> <<"wheeldown", 0>>
       [] OTHER -> <<"motion", 0>>

NoMouse == [ok |-> FALSE]
(* The report whose data begin at index i.                                    *)
Mouse(B, i, m) ==
  LET b == Num(B, i, m, <<0, 0>>, FALSE) IN
  IF ~b.ok \/ b.end # 59 THEN NoMouse
  ELSE LET c == Num(B, b.i, m, <<0, 0>>, FALSE) IN
  IF ~c.ok \/ c.end # 59 \/ c.v = <<0, 0>> THEN NoMouse
  ELSE LET l == Num(B, c.i, m, <<0, 0>>, FALSE) IN
  IF ~l.ok \/ l.end \notin {77, 109} \/ l.v = <<0, 0>> THEN NoMouse
  ELSE [ok |-> TRUE, next |-> l.i, ev |-> [l |-> Minus1(l.v), c |-> Minus1(c.v), mods |-> Mods(b.v),
        i |-> Action(b.v, l.end)[1], b |-> Action(b.v, l.end)[2]]]

(* ---- decoding ------------------------------------------------------------ *)
At(B, p, m, q) == p + Len(q) <= m /\ \A i \in DOMAIN q : B[p + i] = q[i]
Intro == <<27, 91, 60>>

(* What the first m bytes of B hold after position p.                         *)
Decode(B, p, m, keys, mouse) ==
  LET ch == Char1(B, p, m) IN
  IF ch.k # "char" THEN ch
  ELSE IF mouse /\ At(B, p, m, Intro)
  THEN LET r == Mouse(B, p + 4, m) IN
       IF r.ok THEN [k |-> "mouse", n |-> r.next - 1 - p, ev |-> r.ev] ELSE [k |-> "key", n |-> 1, ks |-> {KeyOf(27)}]
  ELSE LET K == {i \in DOMAIN keys : At(B, p, m, keys[i][1])} IN
       IF K = {} THEN [k |-> "key", n |-> ch.n, ks |-> {KeyOf(ch.c)}]
       ELSE LET L == MaxS({Len(keys[i][1]) : i \in K})
            IN [k |-> "key", n |-> L, ks |-> {<<keys[i][2], keys[i][3]>> : i \in {j \in K : Len(keys[j][1]) = L}}]

Same(ret, d) ==
  CASE d.k = "key" -> ret.k = "key" /\ <<ret.key, ret.c>> \in d.ks
    [] d.k = "mouse" -> ret.k = "mouse" /\ ret.l = d.ev.l /\ ret.c = d.ev.c /\ ret.i = d.ev.i /\ ret.b = d.ev.b
                        /\ ToSet(ret.mods) = d.ev.mods
    [] OTHER -> FALSE

(* ---- state --------------------------------------------------------------- *)
InNew(keys, mouse, h, w) ==
  [S |-> <<>>, pos |-> 0, rd |-> 0, keys |-> keys, mouse |-> mouse,
   cfg |-> <<>>,                  \* stack of sets of reported signals
   pend |-> {}, maybe |-> {},     \* signals that must, may be reported
   h |-> h, w |-> w, sh |-> 0, sw |-> 0]

Reportable(s, x) == s.cfg # <<>> /\ (x = "winch" \/ x \in s.cfg[Len(s.cfg)])
\* A resize that arrived before the last restore may still be reported after it.
Allowed(s, x) == x = "winch" \/ Reportable(s, x)
Handled(s, x) == s.cfg # <<>> /\ (x \in {"cont", "winch"} \/ \E i \in DOMAIN s.cfg : x \in s.cfg[i])
ReSort(s) ==
  [s EXCEPT !.pend = {x \in s.pend : Reportable(s, x)}, !.maybe = @ \cup {x \in s.pend : ~Reportable(s, x)}]
Arrive(s, x) == IF Reportable(s, x) THEN [s EXCEPT !.pend = @ \cup {x}] ELSE [s EXCEPT !.maybe = @ \cup {x}]

(* ---- one call ------------------------------------------------------------ *)
(* Is there something to return for a call of kind op?                        *)
Ready(s, op) ==
  \/ s.pend # {}
  \/ CASE op = "ev" -> Decode(s.S, s.pos, Len(s.S), s.keys, s.mouse).k # "none"
       [] op = "raw" -> Len(s.S) > s.pos
       [] OTHER -> Len(s.S) > s.rd \/ Decode(s.S, s.pos, s.rd, s.keys, s.mouse).k # "none"

(* Follow what happened during the call: x = [s, first: time of the first     *)
(* moment with something to return (-1: none), bysig: it was a signal's,      *)
(* cuts, eof, deverr, again].  A signal may arrive after the last look at the *)
(* signals of a call that times out; then a later call reports it.            *)
Follow1(op, x, y) ==
  LET s2 == CASE y.k = "arr" -> [x.s EXCEPT !.S = @ \o y.b]
              [] y.k = "sig" -> Arrive(x.s, y.s)
              [] y.k = "wz" -> [x.s EXCEPT !.h = y.l, !.w = y.c]
              [] y.k = "r" /\ y.r > 0 -> [x.s EXCEPT !.rd = @ + y.r]
              [] OTHER -> x.s
      f == IF x.first >= 0 THEN x.first
           ELSE IF y.k \in {"arr", "sig"} /\ Ready(s2, op) THEN y.t ELSE -1
  IN [s |-> s2, first |-> f, bysig |-> IF x.first >= 0 THEN x.bysig ELSE f >= 0 /\ y.k = "sig",
      cuts |-> x.cuts \cup (IF y.k = "r" /\ y.r > 0 THEN {s2.rd} ELSE {}),
      eof |-> x.eof \/ (y.k = "r" /\ y.r = 0 /\ y.n > 0),
      deverr |-> x.deverr \/ y.k = "serr" \/ (y.k = "r" /\ y.r < 0 /\ y.e # 4),
      again |-> x.again \cup (IF y.k = "sig" /\ y.s \in x.s.pend \cup x.s.maybe THEN {y.s} ELSE {})]

Follow(s, e) == FoldLeft(LAMBDA x, y : Follow1(e.op, x, y),
  [s |-> s, first |-> IF Ready(s, e.op) THEN 0 ELSE -1, bysig |-> FALSE, cuts |-> {s.rd}, eof |-> FALSE, deverr |-> FALSE, again |-> {}], e.sys)

(* inf: 1 without timeout, 2 with one longer than any wait here; otherwise    *)
(* the timeout lies in tlo..thi milliseconds.                                 *)
InTime(e) == e.clk >= e.tlo /\ e.clkf <= e.thi
Took(x, sg) == [x.s EXCEPT !.pend = @ \ {sg}, !.maybe = (@ \ {sg}) \cup (x.again \cap {sg})]
(* A resize event carries the size at that time, and is followed by another   *)
(* if the size has changed since.                                             *)
TookSize(x, ret) ==
  LET y == Took(x, "winch") IN
  [y EXCEPT !.sh = ret.l, !.sw = ret.c, !.pend = IF ret.l = y.h /\ ret.c = y.w THEN @ ELSE @ \cup {"winch"}]
Sizes(s, e) == {<<s.h, s.w>>} \cup {<<y.l, y.c>> : y \in {z \in ToSet(e.sys) : z.k = "wz"}}

Call(s, e) ==
  LET x == Follow(s, e)
      t == x.s
      B == t.S
      late == IF x.first < 0 THEN "returned before there was anything to return" ELSE IF e.clk < x.first THEN "returned early" ELSE "returned late"
      at == x.first >= 0 /\ e.clk = x.first
      decs == {d \in {Decode(B, s.pos, m, t.keys, t.mouse) : m \in x.cuts} : d.k # "none"}
      Resized == <<e.ret.l, e.ret.c>> \in Sizes(s, e)
      Sig(sg) ==
        IF ~Allowed(t, sg) THEN BadS(s, "signal reported that is not configured")
        ELSE IF sg \in t.pend THEN (IF at \/ sg \in s.maybe THEN OkS(IF sg = "winch" THEN TookSize(x, e.ret) ELSE Took(x, sg)) ELSE BadS(s, late))
        ELSE IF sg \in t.maybe THEN OkS(IF sg = "winch" THEN TookSize(x, e.ret) ELSE Took(x, sg))
        ELSE BadS(s, "signal reported that did not arrive")
      Nothing(timed) ==
        IF x.eof THEN OkS(t)
        ELSE IF x.first >= 0 /\ ~(timed /\ x.bysig /\ x.first = e.clk) THEN BadS(s, IF t.pend # {} THEN "pending signal not reported" ELSE "available input not reported")
        ELSE IF timed /\ ~InTime(e) THEN BadS(s, "timeout reported at the wrong time")
        ELSE IF ~timed /\ e.inf = 0 THEN BadS(s, "blocks despite a timeout")
        ELSE OkS(t)
  IN IF e.rd # t.rd THEN BadS(s, "bytes read unaccounted for")
     ELSE CASE e.r = "block" -> Nothing(FALSE)
       [] e.r = "err" ->
            IF e.e > 0 THEN (IF x.deverr THEN OkS(t) ELSE BadS(s, "error without a device error"))
            ELSE IF e.op # "ev" THEN BadS(s, "error without a device error")
            ELSE IF \E d \in decs : d.k = "bad"
            THEN LET d == CHOOSE y \in decs : y.k = "bad" IN IF at THEN OkS([t EXCEPT !.pos = @ + d.n]) ELSE BadS(s, late)
            ELSE BadS(s, "error for well-formed input")
       [] e.r # "ok" -> BadS(s, "no result")
       [] e.ret.k = "none" -> IF e.inf = 1 /\ ~x.eof THEN BadS(s, "timeout reported without a timeout") ELSE Nothing(TRUE)
       [] e.ret.k = "bool" /\ ~e.ret.v -> IF e.inf = 1 THEN BadS(s, "timeout reported without a timeout") ELSE Nothing(TRUE)
       [] e.ret.k = "bool" -> IF at \/ {y \in t.maybe : Allowed(t, y)} # {} THEN OkS(t) ELSE BadS(s, late)
       [] e.ret.k = "resize" -> IF Resized THEN Sig("winch") ELSE BadS(s, "resize event with a wrong size")
       [] e.ret.k = "sig" -> IF e.ret.s = "winch" THEN BadS(s, "resize reported as signal") ELSE Sig(e.ret.s)
       [] e.op = "raw" ->
            IF e.ret.k # "raw" THEN BadS(s, "raw read returned an event")
            ELSE IF e.ret.n > e.cnt THEN BadS(s, "raw read of more than fits")
            ELSE IF e.ret.n = 0 THEN (IF e.cnt = 0 \/ x.eof THEN OkS(t) ELSE BadS(s, "raw read of nothing"))
            ELSE IF s.pos + e.ret.n > t.rd THEN BadS(s, "input invented")
            ELSE IF e.ret.bytes # SubSeq(B, s.pos + 1, s.pos + e.ret.n) THEN BadS(s, "raw read returned other bytes than arrived")
            ELSE IF ~at THEN BadS(s, late)
            ELSE OkS([t EXCEPT !.pos = @ + e.ret.n])
       [] OTHER ->
            LET good == {d \in decs : Same(e.ret, d)} IN
            IF good = {} THEN BadS(s, IF decs = {} THEN "input invented" ELSE "wrong event for the input")
            ELSE IF ~at THEN BadS(s, late)
            ELSE LET d == CHOOSE y \in good : TRUE IN OkS([t EXCEPT !.pos = @ + d.n])

(* ---- all events ---------------------------------------------------------- *)
Push(s, rs) == ReSort([s EXCEPT !.cfg = Append(@, ToSet(rs))])
Pop(s) == ReSort([s EXCEPT !.cfg = SubSeq(@, 1, Len(@) - 1)])

InStep(s, e) ==
  LET ab == Abnormal(e) IN
  CASE ab # "" -> BadS(s, ab)
    [] e.op \in {"ev", "wait", "raw"} -> Call(s, e)
    [] e.r # "ok" -> BadS(s, "failed")
    [] e.op = "in" -> OkS([s EXCEPT !.S = @ \o e.bytes])
    [] e.op = "sig" ->
         IF e.ret.v # Handled(s, e.s) THEN BadS(s, IF e.ret.v THEN "signal handled without need" ELSE "signal not handled")
         ELSE IF e.ret.v THEN OkS(Arrive(s, e.s)) ELSE OkS(s)
    [] e.op = "winsz" ->
         LET s2 == [s EXCEPT !.h = e.l, !.w = e.c] IN OkS(IF Get(e, "sig", FALSE) /\ s.cfg # <<>> THEN Arrive(s2, "winch") ELSE s2)
    [] e.op = "prep" -> OkS(Push(s, e.rs))
    [] e.op = "screen" -> OkS(Push([s EXCEPT !.sh = s.h, !.sw = s.w], e.rs))
    [] e.op = "rest" -> OkS(Pop(s))
    [] e.op = "size" /\ e.on = "t" -> IF e.ret.l = s.h /\ e.ret.c = s.w THEN OkS(s) ELSE BadS(s, "size() is not the size of the device")
    [] e.op = "size" -> IF e.ret.l = s.sh /\ e.ret.c = s.sw THEN OkS(s) ELSE BadS(s, "size() is not the size of the last resize event")
    [] e.op \in {"open", "stdfds", "splan", "aplan", "szplan", "rplan", "wplan", "lockr", "unlockr", "slockr", "sunlockr", "dropt", "drops"} -> OkS(s)
    [] OTHER -> BadS(s, "unknown event " \o e.op)
=============================================================================
