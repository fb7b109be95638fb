------------------------------ MODULE ScreenBuf ------------------------------
(* The contents of a Screen: a grid of cells, a cursor and the attributes of  *)
(* the text to be written.  A character is a pair <<code point, kind>>:       *)
(* kind 1 narrow, 2 wide, 0 combining mark, 3 tab, 4 CR, 5 LF, 6 ignored.     *)
EXTENDS Device

BCell(t, wd, f, b, s) == [t |-> t, wd |-> wd, f |-> f, b |-> b, s |-> s]
BBlank == BCell(<<32>>, 1, 0, 0, {})

(* Positions outside of every screen, which only the numbers' size tells apart. *)
Far == 2000000000
Below(l) == IF l >= Far THEN Far ELSE l + 1

BufNew(h, w) == [h |-> h, w |-> w, g |-> [i \in 1..(h * w) |-> BBlank],
                 l |-> 0, c |-> 0, f |-> 0, b |-> 0, s |-> {}]

InB(S, l, c) == l >= 0 /\ c >= 0 /\ l < S.h /\ c < S.w
BIx(S, l, c) == l * S.w + c + 1

(* The writer stops at the first character that does not fit.                 *)
Out(S, ok) == [s |-> S, ok |-> ok]

PutCell(S, l, c, cp, wd) ==
  [S EXCEPT !.g[BIx(S, l, c)] = BCell(<<cp>>, wd, S.f, S.b, S.s)]

(* Overwriting the second half of a wide character blanks its first half.     *)
Unsplit(S) ==
  IF S.c > 0 /\ S.g[BIx(S, S.l, S.c - 1)].wd = 2
  THEN [S EXCEPT !.g[BIx(S, S.l, S.c - 1)] = BBlank] ELSE S

Advance(S, k) ==
  IF S.c + k >= S.w THEN [S EXCEPT !.l = @ + 1, !.c = 0] ELSE [S EXCEPT !.c = @ + k]

Visible(S0, cp, k) ==
  IF ~InB(S0, S0.l, S0.c) THEN Out(S0, FALSE)
  ELSE IF k > S0.w THEN Out(S0, FALSE)
  ELSE LET S1 == Unsplit(S0)
           \* a wide character that does not fit moves to the next line
           S2 == IF S1.w - S1.c < k
                 THEN [PutCell(S1, S1.l, S1.c, 32, 1) EXCEPT !.c = 0, !.l = @ + 1]
                 ELSE S1
       IN IF ~InB(S2, S2.l, S2.c) THEN Out(S2, FALSE)
          ELSE LET S3 == PutCell(S2, S2.l, S2.c, cp, k)
                   S4 == IF k = 2 THEN PutCell(S3, S3.l, S3.c + 1, 32, 1) ELSE S3
               IN Out(Advance(S4, k), TRUE)

Mark(S, cp) ==
  IF S.l = 0 /\ S.c = 0 THEN Out(S, TRUE)
  ELSE LET pl == IF S.c = 0 THEN S.l - 1 ELSE S.l
           pc == IF S.c = 0 THEN S.w - 1 ELSE S.c - 1
       IN IF ~InB(S, pl, pc) THEN Out(S, FALSE)
          ELSE LET qc == IF pc > 0 /\ S.g[BIx(S, pl, pc - 1)].wd = 2 THEN pc - 1 ELSE pc
               IN Out([S EXCEPT !.g[BIx(S, pl, qc)].t = Append(@, cp)], TRUE)

RECURSIVE Spaces(_, _)
Spaces(S, n) == IF n = 0 THEN Out(S, TRUE)
                ELSE LET r == Visible(S, 32, 1) IN
                     IF r.ok THEN Spaces(r.s, n - 1) ELSE r

Tab(S) == IF ~InB(S, S.l, S.c) THEN Out(S, FALSE)
          ELSE Spaces(S, MinI(S.w - S.c, 8 - (S.c % 8)))

PutChar(S, ch) ==
  LET cp == ch[1] k == ch[2] IN
  CASE k \in {1, 2} -> Visible(S, cp, k)
    [] k = 0 -> Mark(S, cp)
    [] k = 3 -> Tab(S)
    [] k = 4 -> Out([S EXCEPT !.c = 0], TRUE)
    [] k = 5 -> Out([S EXCEPT !.c = 0, !.l = Below(@)], TRUE)
    [] OTHER -> Out(S, TRUE)

Text(S, t) ==
  FoldLeft(LAMBDA r, ch : IF r.ok THEN PutChar(r.s, ch) ELSE r, Out(S, TRUE), t).s

NoAttr(S) == [S EXCEPT !.f = 0, !.b = 0, !.s = {}]
SetAttr(S, f, b, s) == [S EXCEPT !.f = f, !.b = b, !.s = s]
Styled(S, f, b, s, t) == NoAttr(Text(SetAttr(S, f, b, s), t))

(* Effect of one call on the buffer; e is the call.                           *)
BufOp(S, e) ==
  CASE e.op = "setcur" -> [S EXCEPT !.l = e.l, !.c = e.c]
    [] e.op = "nextline" -> [S EXCEPT !.l = Below(@), !.c = e.c]
    [] e.op = "clr" -> [S EXCEPT !.g = [i \in DOMAIN S.g |-> BBlank]]
    [] e.op = "fg" -> [S EXCEPT !.f = e.c]
    [] e.op = "bg" -> [S EXCEPT !.b = e.c]
    [] e.op = "add" -> [S EXCEPT !.s = @ \cup StyleBits(e.s)]
    [] e.op = "rem" -> [S EXCEPT !.s = @ \ StyleBits(e.s)]
    [] e.op = "set" -> [S EXCEPT !.s = StyleBits(e.s)]
    [] e.op = "bold" -> [S EXCEPT !.s = @ \cup {1}]
    [] e.op = "italic" -> [S EXCEPT !.s = @ \cup {2}]
    [] e.op = "underline" -> [S EXCEPT !.s = @ \cup {4}]
    [] e.op = "reverse" -> [S EXCEPT !.s = @ \cup {8}]
    [] e.op = "theme" -> SetAttr(S, e.f, e.b, StyleBits(e.s))
    [] e.op = "clrattr" -> NoAttr(S)
    [] e.op \in {"str", "chr", "fmt", "fmt2"} -> Text(S, e.t)
    [] e.op = "at" -> IF InB(S, e.l, e.c) THEN Text([S EXCEPT !.l = e.l, !.c = e.c], e.t) ELSE S
    [] e.op = "styled" -> Styled(S, e.f, e.b, StyleBits(e.s), e.t)
    [] e.op = "styledat" ->
         IF InB(S, e.l, e.c)
         THEN Styled([S EXCEPT !.l = e.l, !.c = e.c], e.f, e.b, StyleBits(e.s), e.t) ELSE S
    [] OTHER -> S

BufOps == {"setcur", "nextline", "clr", "fg", "bg", "add", "rem", "set", "bold", "italic",
           "underline", "reverse", "theme", "clrattr", "str", "chr", "fmt", "fmt2", "at",
           "styled", "styledat"}

(* A resize keeps the cells inside both sizes; a wide character cut by the    *)
(* new right edge becomes blank.                                              *)
BufResize(S, h, w) ==
  LET Old(l, c) == S.g[BIx(S, l, c)]
      New(i) == LET l == (i - 1) \div w
                    c == (i - 1) % w
                IN IF ~InB(S, l, c) THEN BBlank
                   ELSE IF c = w - 1 /\ Old(l, c).wd = 2 THEN BBlank
                   ELSE Old(l, c)
  IN [S EXCEPT !.h = h, !.w = w, !.g = [i \in 1..(h * w) |-> New(i)]]

(* What a terminal supporting the attributes sup has to show.                     *)
Shown(S, sup) ==
  [i \in DOMAIN S.g |->
     IF i > 1 /\ (i - 1) % S.w # 0 /\ S.g[i - 1].wd = 2 THEN Cont
     ELSE [t |-> S.g[i].t, f |-> IF Colours \in sup THEN S.g[i].f ELSE 0,
           b |-> IF Colours \in sup THEN S.g[i].b ELSE 0, s |-> S.g[i].s \cap sup]]

ShownCursor(S) ==
  IF InB(S, S.l, S.c) THEN <<S.l, S.c>> ELSE <<S.h - 1, S.w - 1>>

(* No wide character is cut by the edge or half overwritten.                  *)
BufOK(S) ==
  /\ DOMAIN S.g = 1..(S.h * S.w)
  /\ \A i \in DOMAIN S.g : S.g[i].wd = 2 =>
       /\ i % S.w # 0
       /\ S.g[i + 1] = BCell(<<32>>, 1, S.g[i].f, S.g[i].b, S.g[i].s)
=============================================================================
