------------------------------- MODULE LineOps -------------------------------
(* The line-oriented operations of a terminal: what each call does to an      *)
(* ideal display M whose pen (f, b, s) is the attributes in force.  sup is    *)
(* what the terminal type supports: styles, hiding the cursor, colours.       *)
EXTENDS Common

Much == 1000000
Count(e) == IF Has(e, "cntbig") THEN Much ELSE MinI(e.cnt, Much)

Pen(M, f, b, s) == [M EXCEPT !.f = f, !.b = b, !.s = s]
NoPen(M) == Pen(M, 0, 0, {})

TextToken(ch) ==
  CASE ch[2] \in {0, 1, 2} -> [o |-> "put", c |-> ch[1], w |-> ch[2]]
    [] ch[2] = 3 -> [o |-> "ht"]
    [] ch[2] = 4 -> [o |-> "cr"]
    [] ch[2] = 5 -> [o |-> "lf"]
    [] OTHER -> [o |-> "ctl"]

Write(M, t) == FoldLeft(LAMBDA D, ch : Token(D, TextToken(ch)), M, t)

(* Text is shown with the supported attributes; the pen is kept whole.        *)
LText(M, t, sup) ==
  LET N == Write([M EXCEPT !.s = @ \cap sup, !.f = IF Colours \in sup THEN @ ELSE 0,
                           !.b = IF Colours \in sup THEN @ ELSE 0], t)
  IN Pen(N, M.f, M.b, M.s)

LineOp(M, e, sup) ==
  CASE e.op = "up"    -> IF Count(e) = 0 THEN M ELSE Token(M, [o |-> "cuu", n |-> Count(e)])
    [] e.op = "down"  -> IF Count(e) = 0 THEN M ELSE Token(M, [o |-> "cud", n |-> Count(e)])
    [] e.op = "left"  -> IF Count(e) = 0 THEN M ELSE Token(M, [o |-> "cub", n |-> Count(e)])
    [] e.op = "right" -> IF Count(e) = 0 THEN M ELSE Token(M, [o |-> "cuf", n |-> Count(e)])
    [] e.op = "cr"    -> Token(M, [o |-> "cr"])
    [] e.op = "clr"   -> Feed(M, <<[o |-> "cup", l |-> 0, c |-> 0], [o |-> "ed", n |-> 2]>>)
    [] e.op = "el"    -> Token(M, [o |-> "el", n |-> 0])
    [] e.op = "ed"    -> Token(M, [o |-> "ed", n |-> 0])
    [] e.op = "curmode" -> [M EXCEPT !.vis = (e.m # "invisible" \/ Hiding \notin sup)]
    [] e.op = "fg"    -> [M EXCEPT !.f = e.c]
    [] e.op = "bg"    -> [M EXCEPT !.b = e.c]
    [] e.op = "add"   -> [M EXCEPT !.s = @ \cup StyleBits(e.s)]
    [] e.op = "rem"   -> [M EXCEPT !.s = @ \ StyleBits(e.s)]
    [] e.op = "set"   -> [M EXCEPT !.s = StyleBits(e.s)]
    [] e.op = "bold"  -> [M EXCEPT !.s = @ \cup {1}]
    [] e.op = "italic" -> [M EXCEPT !.s = @ \cup {2}]
    [] e.op = "underline" -> [M EXCEPT !.s = @ \cup {4}]
    [] e.op = "reverse" -> [M EXCEPT !.s = @ \cup {8}]
    [] e.op = "theme" -> Pen(M, e.f, e.b, StyleBits(e.s))
    [] e.op = "clrattr" -> NoPen(M)
    [] e.op = "styled" -> NoPen(LText(Pen(M, e.f, e.b, StyleBits(e.s)), e.t, sup))
    [] e.op \in {"str", "chr", "fmt", "fmt2"} -> LText(M, e.t, sup)
    [] OTHER -> M

(* The terminal type has nothing to do this with.                             *)
NoCounts == 64
NoErase == 128
Unable(e, sup) ==
  \/ NoCounts \in sup /\ e.op \in {"up", "left", "right"} /\ Count(e) > 1
  \/ NoCounts \in sup /\ e.op = "down" /\ Count(e) > 0
  \/ NoErase \in sup /\ e.op \in {"clr", "el", "ed"}

LineCalls == {"up", "down", "left", "right", "cr", "clr", "el", "ed", "curmode", "fg", "bg", "add", "rem",
              "set", "bold", "italic", "underline", "reverse", "theme", "clrattr", "styled", "str", "chr",
              "fmt", "fmt2"}

(* Difference between the ideal display M and the observed one D.             *)
Unlike(M, D) ==
  CASE D.bad -> "output outside the understood repertoire"
    [] D.g # M.g ->
         LET i == CHOOSE i \in DOMAIN M.g : D.g[i] # M.g[i] /\ \A j \in DOMAIN M.g : j < i => D.g[j] = M.g[j]
         IN "cell " \o ToString(<<(i - 1) \div M.w, (i - 1) % M.w>>) \o " shows " \o ToString(D.g[i])
            \o " instead of " \o ToString(M.g[i])
    [] D.l # M.l \/ D.c # M.c \/ D.pw # M.pw ->
         "cursor at " \o ToString(<<D.l, D.c, D.pw>>) \o " instead of " \o ToString(<<M.l, M.c, M.pw>>)
    [] D.vis # M.vis -> "cursor visibility"
    [] D.alt # M.alt \/ D.top # M.top \/ D.bot # M.bot -> "screen mode"
    [] OTHER -> ""
=============================================================================
