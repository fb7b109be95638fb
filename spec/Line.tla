-------------------------------- MODULE Line --------------------------------
(* Design of the attribute handling of a terminal: the writer remembers the   *)
(* attributes w that it has sent and sends the escape sequences that change   *)
(* them; bold and reverse, and on some terminals (UlResets) underline, can    *)
(* only be ended by resetting everything.                                     *)
(* Checked: the pen of the terminal is always the attributes in force (as     *)
(* far as supported), and cursor operations change nothing but the cursor.    *)
EXTENDS LineOps, Json
CONSTANTS H, W, Colors, Supported, UlResets, Attrs, Moves, Depth, Gen

VARIABLES M,     \* ideal display
          D,     \* display fed with the design's output
          w,     \* the writer's memory of the attributes
          hist
vars == <<M, D, w, hist>>
View == <<w, D.l, D.c, D.pw, D.vis, D.f, D.b, D.s>>

Sup == {i \in {1, 2, 4, 8, Hiding, Colours} : (Supported \div i) % 2 = 1}
NoW == [f |-> 0, b |-> 0, s |-> {}]

Init == /\ M = DevNew(H, W, Blank) /\ D = M /\ w = NoW /\ hist = <<>>

(* The design: r = [w, out].                                                  *)
R(x, out) == [w |-> x, out |-> out]
Sg(p) == <<[o |-> "sgr", p |-> p]>>
Then(r, F(_)) == LET q == F(r.w) IN R(q.w, r.out \o q.out)
Reset(x) == IF x = NoW THEN R(x, <<>>) ELSE R(NoW, Sg(<<0>>))
Add(x, S) ==
  R([x EXCEPT !.s = @ \cup S],
    FoldLeft(LAMBDA a, i : IF i \in (S \ x.s) \cap Sup
                           THEN a \o Sg(<<CASE i = 1 -> 1 [] i = 2 -> 3 [] i = 4 -> 4 [] OTHER -> 7>>) ELSE a,
             <<>>, <<1, 2, 8, 4>>))
Fg0(x, c) == IF x.f = c THEN R(x, <<>>) ELSE R([x EXCEPT !.f = c], IF Colours \in Sup THEN Sg(<<29 + c>>) ELSE <<>>)
Bg0(x, c) == IF x.b = c THEN R(x, <<>>) ELSE R([x EXCEPT !.b = c], IF Colours \in Sup THEN Sg(<<39 + c>>) ELSE <<>>)
Rebuild(x, f, b, S) ==
  LET r1 == Reset(x)
      r2 == IF f = 0 THEN r1 ELSE Then(r1, LAMBDA y : Fg0(y, f))
      r3 == IF b = 0 THEN r2 ELSE Then(r2, LAMBDA y : Bg0(y, b))
  IN Then(r3, LAMBDA y : Add(y, S))
Fg(x, c) == IF c = 0 /\ x.f # 0 THEN Rebuild(x, 0, x.b, x.s) ELSE Fg0(x, c)
Bg(x, c) == IF c = 0 /\ x.b # 0 THEN Rebuild(x, x.f, 0, x.s) ELSE Bg0(x, c)
Rem(x, S) ==
  LET q == S \cap x.s IN
  IF q \cap {1, 8} # {} \/ (UlResets /\ 4 \in q) THEN Rebuild(x, x.f, x.b, x.s \ q)
  ELSE R([x EXCEPT !.s = @ \ q],
         (IF 2 \in q \cap Sup THEN Sg(<<23>>) ELSE <<>>) \o (IF 4 \in q \cap Sup THEN Sg(<<24>>) ELSE <<>>))
Set(x, S) == IF (x.s \ S) \cap {1, 8} # {} THEN Rebuild(x, x.f, x.b, S)
             ELSE Then(Add(x, S), LAMBDA y : Rem(y, x.s \ S))
Theme(x, f, b, S) ==
  LET r0 == IF (x.f # 0 /\ f = 0) \/ (x.b # 0 /\ b = 0) THEN Reset(x) ELSE R(x, <<>>)
      r1 == Then(r0, LAMBDA y : Set(y, S))
      r2 == Then(r1, LAMBDA y : Fg(y, f))
  IN Then(r2, LAMBDA y : Bg(y, b))
Chars(t) == [i \in DOMAIN t |-> TextToken(t[i])]
Mv(k, n) == IF n = 0 THEN <<>> ELSE <<[o |-> k, n |-> n]>>

Design(x, e) ==
  CASE e.op = "fg" -> Fg(x, e.c)
    [] e.op = "bg" -> Bg(x, e.c)
    [] e.op = "add" -> Add(x, StyleBits(e.s))
    [] e.op = "rem" -> Rem(x, StyleBits(e.s))
    [] e.op = "set" -> Set(x, StyleBits(e.s))
    [] e.op = "theme" -> Theme(x, e.f, e.b, StyleBits(e.s))
    [] e.op = "clrattr" -> Reset(x)
    [] e.op = "styled" -> LET r == Theme(x, e.f, e.b, StyleBits(e.s))
                          IN Then(R(r.w, r.out \o Chars(e.t)), Reset)
    [] e.op = "chr" -> R(x, Chars(e.t))
    [] e.op = "up" -> R(x, Mv("cuu", Count(e)))
    [] e.op = "down" -> R(x, Mv("cud", Count(e)))
    [] e.op = "left" -> R(x, Mv("cub", Count(e)))
    [] e.op = "right" -> R(x, Mv("cuf", Count(e)))
    [] e.op = "cr" -> R(x, <<[o |-> "cr"]>>)
    [] e.op = "el" -> R(x, <<[o |-> "el", n |-> 0]>>)
    [] e.op = "ed" -> R(x, <<[o |-> "ed", n |-> 0]>>)
    [] e.op = "clr" -> R(x, <<[o |-> "cup", l |-> 0, c |-> 0], [o |-> "ed", n |-> 0]>>)
    [] OTHER -> R(x, IF Hiding \notin Sup THEN <<>> ELSE <<[o |-> "mode", n |-> 25, on |-> e.m # "invisible"]>>)

St == 0..15
Ops ==
  (IF ~Attrs THEN {} ELSE
    {[op |-> o, c |-> c] : o \in {"fg", "bg"}, c \in Colors}
    \cup {[op |-> o, s |-> s] : o \in {"add", "rem", "set"}, s \in St}
    \cup {[op |-> o, f |-> f, b |-> b, s |-> s] : o \in {"theme"}, f \in Colors, b \in Colors, s \in St}
    \cup {[op |-> "styled", f |-> f, b |-> b, s |-> s, t |-> <<<<98, 1>>>>] : f \in Colors, b \in Colors, s \in {0, 1, 6, 15}}
    \cup {[op |-> "clrattr"]})
  \cup (IF ~Moves THEN {} ELSE
    {[op |-> o, cnt |-> n] : o \in {"up", "down", "left", "right"}, n \in {0, 1, 2, 3, 1000}}
    \cup {[op |-> o] : o \in {"cr", "el", "ed", "clr"}}
    \cup {[op |-> "curmode", m |-> m] : m \in {"normal", "invisible", "overwrite"}}
    \cup {[op |-> "chr", t |-> <<c>>] : c \in {<<97, 1>>, <<19990, 2>>, <<10, 5>>, <<9, 3>>}})
Probe == [op |-> "chr", t |-> <<<<99, 1>>>>]

Next == \E e \in Ops :
  LET r == Design(w, e) IN
  /\ M' = LineOp(M, e, Sup) /\ D' = Feed(D, r.out) /\ w' = r.w
  /\ hist' = Append(hist, e)

Spec == Init /\ [][Next]_vars
Bound == Len(hist) < Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))

Right == /\ Unlike(M, D) = ""
         /\ (Colours \in Sup => D.f = M.f /\ D.b = M.b) /\ D.s = M.s \cap Sup
         /\ w = [f |-> M.f, b |-> M.b, s |-> M.s]
(* Exact motion, stated arithmetically.                                       *)
Exact == [][
  LET e == hist'[Len(hist')] IN
  /\ e.op = "up"    => M'.l = IF e.cnt > M.l THEN 0 ELSE M.l - e.cnt
  /\ e.op = "down"  => M'.l = IF M.l + e.cnt > H - 1 THEN H - 1 ELSE M.l + e.cnt
  /\ e.op = "left"  => M'.c = IF e.cnt > M.c THEN 0 ELSE M.c - e.cnt
  /\ e.op = "right" => M'.c = IF M.c + e.cnt > W - 1 THEN W - 1 ELSE M.c + e.cnt
  /\ e.op \in {"up", "down"} => M'.c = M.c
  /\ e.op \in {"left", "right"} => M'.l = M.l
  /\ e.op \in {"up", "down", "left", "right", "cr", "curmode"} => M'.g = M.g
  /\ e.op \in {"fg", "bg", "add", "rem", "set", "theme", "clrattr", "curmode", "el", "ed"} => M'.l = M.l /\ M'.c = M.c
  /\ e.op \in {"fg", "bg", "add", "rem", "set", "theme", "clrattr"} => M'.g = M.g
  ]_vars
=============================================================================
