------------------------------- MODULE Device -------------------------------
(* An ANSI terminal as its user sees it: a grid of cells, a cursor, the       *)
(* attributes applied to text, and a few modes.  Its inputs are the tokens    *)
(* into which the harness splits the bytes that the library writes.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

(* Styles are sets of 1 (bold), 2 (italic), 4 (underline), 8 (reverse).       *)
StyleBits(n) == {i \in {1, 2, 4, 8} : (n \div i) % 2 = 1}
StyleInt(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0)
             + (IF 4 \in S THEN 4 ELSE 0) + (IF 8 \in S THEN 8 ELSE 0)

(* What a type of terminal supports is a set of styles and of these.          *)
Hiding == 16
Colours == 32

Blank == [t |-> <<32>>, f |-> 0, b |-> 0, s |-> {}]
(* Second half of a wide character.                                           *)
Cont  == [t |-> <<>>, f |-> 0, b |-> 0, s |-> {}]
(* Unspecified content: what the user sees is not defined.                    *)
Junk  == [t |-> <<-1>>, f |-> 0, b |-> 0, s |-> {}]

Fill(h, w, cell) == [i \in 1..(h * w) |-> cell]

DevNew(h, w, cell) ==
  [h |-> h, w |-> w, g |-> Fill(h, w, cell), l |-> 0, c |-> 0, pw |-> FALSE,
   f |-> 0, b |-> 0, s |-> {}, vis |-> TRUE, alt |-> FALSE, modes |-> {}, track |-> 0,
   kp |-> FALSE, top |-> 0, bot |-> h - 1, bad |-> FALSE]

Ix(D, l, c) == l * D.w + c + 1

(* Break the wide characters that the cells a..z (one row) cut in two.        *)
Cut(D, a, z) ==
  LET g1 == IF a \in DOMAIN D.g /\ D.g[a] = Cont /\ a - 1 \in DOMAIN D.g
            THEN [D.g EXCEPT ![a - 1] = Junk] ELSE D.g
      g2 == IF z + 1 \in DOMAIN g1 /\ g1[z + 1] = Cont
            THEN [g1 EXCEPT ![z + 1] = Junk] ELSE g1
  IN [D EXCEPT !.g = g2]

Erase(D, a, z) ==
  IF a > z THEN D
  ELSE LET D1 == Cut(D, a, z)
       IN [D1 EXCEPT !.g = [i \in DOMAIN D1.g |-> IF i \in a..z THEN Blank ELSE D1.g[i]]]

ScrollUp(D) ==
  LET a == D.top * D.w + 1
      z == (D.bot + 1) * D.w
  IN [D EXCEPT !.g = [i \in DOMAIN D.g |->
        IF i < a \/ i > z THEN D.g[i]
        ELSE IF i + D.w <= z THEN D.g[i + D.w] ELSE Blank]]

ScrollDown(D) ==
  LET a == D.top * D.w + 1
      z == (D.bot + 1) * D.w
  IN [D EXCEPT !.g = [i \in DOMAIN D.g |->
        IF i < a \/ i > z THEN D.g[i]
        ELSE IF i - D.w >= a THEN D.g[i - D.w] ELSE Blank]]

LineFeed(D) ==
  LET D1 == [D EXCEPT !.pw = FALSE]
  IN IF D1.l = D1.bot THEN ScrollUp(D1)
     ELSE [D1 EXCEPT !.l = MinI(D1.l + 1, D1.h - 1)]

RevIndex(D) ==
  LET D1 == [D EXCEPT !.pw = FALSE]
  IN IF D1.l = D1.top THEN ScrollDown(D1)
     ELSE [D1 EXCEPT !.l = MaxI(D1.l - 1, 0)]

Wrapped(D) == LineFeed([D EXCEPT !.c = 0, !.pw = FALSE])

PutSpacing(D, cp, k) ==
  LET D1 == IF D.pw \/ D.c + k > D.w THEN Wrapped(D) ELSE D
      i  == Ix(D1, D1.l, D1.c)
      D2 == Cut(D1, i, i + k - 1)
      cell == [t |-> <<cp>>, f |-> D.f, b |-> D.b, s |-> D.s]
      g2 == IF k = 1 THEN [D2.g EXCEPT ![i] = cell]
            ELSE [D2.g EXCEPT ![i] = cell, ![i + 1] = Cont]
  \* no room for it on any line: what the terminal shows then is not specified
  IN IF k > D.w THEN [D EXCEPT !.g = Fill(D.h, D.w, Junk)]
     ELSE IF D1.c + k >= D.w
     THEN [D2 EXCEPT !.g = g2, !.c = D.w - 1, !.pw = TRUE]
     ELSE [D2 EXCEPT !.g = g2, !.c = D1.c + k]

PutMark(D, cp) ==
  LET p == IF D.pw THEN Ix(D, D.l, D.c) ELSE Ix(D, D.l, D.c) - 1
      q == IF p \in DOMAIN D.g /\ D.g[p] = Cont THEN p - 1 ELSE p
  \* nothing to combine with on its line: likewise
  IN IF q \notin DOMAIN D.g \/ (D.c = 0 /\ ~D.pw) THEN [D EXCEPT !.g = Fill(D.h, D.w, Junk)]
     ELSE [D EXCEPT !.g[q].t = Append(@, cp)]

Sgr1(D, p) ==
  CASE p = 0 -> [D EXCEPT !.f = 0, !.b = 0, !.s = {}]
    [] p = 1 -> [D EXCEPT !.s = @ \cup {1}]
    [] p = 3 -> [D EXCEPT !.s = @ \cup {2}]
    [] p = 4 -> [D EXCEPT !.s = @ \cup {4}]
    [] p = 7 -> [D EXCEPT !.s = @ \cup {8}]
    [] p = 22 -> [D EXCEPT !.s = @ \ {1}]
    [] p = 23 -> [D EXCEPT !.s = @ \ {2}]
    [] p = 24 -> [D EXCEPT !.s = @ \ {4}]
    [] p = 27 -> [D EXCEPT !.s = @ \ {8}]
    [] p \in 30..37 -> [D EXCEPT !.f = p - 29]
    [] p = 39 -> [D EXCEPT !.f = 0]
    [] p \in 40..47 -> [D EXCEPT !.b = p - 39]
    [] p = 49 -> [D EXCEPT !.b = 0]
    [] p \in 90..97 -> [D EXCEPT !.f = p - 81]
    [] p \in 100..107 -> [D EXCEPT !.b = p - 91]
    [] p = 10 -> D
    [] OTHER -> [D EXCEPT !.bad = TRUE]

Sgr(D, ps) ==
  IF Len(ps) = 3 /\ ps[1] = 38 /\ ps[2] = 5 THEN [D EXCEPT !.f = ps[3] + 1]
  ELSE IF Len(ps) = 3 /\ ps[1] = 48 /\ ps[2] = 5 THEN [D EXCEPT !.b = ps[3] + 1]
  ELSE FoldLeft(Sgr1, D, ps)

Goto(D, l, c) == [D EXCEPT !.l = MaxI(0, MinI(l, D.h - 1)),
                           !.c = MaxI(0, MinI(c, D.w - 1)), !.pw = FALSE]

Mode(D, n, on) ==
  CASE n = 25 -> [D EXCEPT !.vis = on]
    [] n \in {1049, 1047, 47} ->
         IF on /\ ~D.alt
         THEN [D EXCEPT !.alt = TRUE, !.g = Fill(D.h, D.w, Junk)]
         ELSE IF ~on /\ D.alt THEN [D EXCEPT !.alt = FALSE, !.g = Fill(D.h, D.w, Junk)]
         ELSE D
    [] n = 12 -> D
    \* xterm has one mouse tracking mode: the last one set, none after any reset
    [] n \in {1000, 1002, 1003} ->
         [D EXCEPT !.modes = IF on THEN @ \cup {n} ELSE @ \ {n}, !.track = IF on THEN n ELSE 0]
    [] OTHER -> [D EXCEPT !.modes = IF on THEN @ \cup {n} ELSE @ \ {n}]

Token(D, k) ==
  CASE k.o = "put" -> IF k.w = 0 THEN PutMark(D, k.c) ELSE PutSpacing(D, k.c, k.w)
    [] k.o = "lf"  -> LineFeed(D)
    [] k.o = "cr"  -> [D EXCEPT !.c = 0, !.pw = FALSE]
    [] k.o = "ri"  -> RevIndex(D)
    [] k.o = "ht"  -> Goto(D, D.l, ((D.c \div 8) + 1) * 8)
    [] k.o = "cup" -> Goto(D, k.l, k.c)
    [] k.o = "cha" -> Goto(D, D.l, k.n)
    [] k.o = "cuu" -> Goto(D, D.l - k.n, D.c)
    [] k.o = "cud" -> Goto(D, D.l + k.n, D.c)
    [] k.o = "cuf" -> Goto(D, D.l, D.c + k.n)
    [] k.o = "cub" -> Goto(D, D.l, D.c - k.n)
    [] k.o = "ed"  -> LET here == Ix(D, D.l, D.c) IN
                      CASE k.n = 0 -> Erase(D, here, D.h * D.w)
                        [] k.n = 1 -> Erase(D, 1, here)
                        [] OTHER -> Erase(D, 1, D.h * D.w)
    [] k.o = "el"  -> LET here == Ix(D, D.l, D.c) IN
                      CASE k.n = 0 -> Erase(D, here, Ix(D, D.l, D.w - 1))
                        [] k.n = 1 -> Erase(D, Ix(D, D.l, 0), here)
                        [] OTHER -> Erase(D, Ix(D, D.l, 0), Ix(D, D.l, D.w - 1))
    [] k.o = "sgr" -> Sgr(D, k.p)
    [] k.o = "mode" -> Mode(D, k.n, k.on)
    [] k.o = "kp"  -> [D EXCEPT !.kp = k.on]
    [] k.o = "csr" -> [Goto(D, 0, 0) EXCEPT !.top = MinI(k.t, D.h - 1),
                                           !.bot = MinI(k.b, D.h - 1)]
    [] k.o = "ctl" -> D
    [] OTHER -> [D EXCEPT !.bad = TRUE]

Feed(D, ks) == FoldLeft(Token, D, ks)

(* The window is resized: what it shows is unspecified until repainted, and   *)
(* where the cursor is (terminals that rewrap lines move it): anywhere but    *)
(* where it was.                                                              *)
DevResize(D, h, w) ==
  [D EXCEPT !.h = h, !.w = w, !.g = Fill(h, w, Junk), !.pw = FALSE,
            !.l = (@ + 1) % h, !.c = (@ + 1) % w,
            !.top = 0, !.bot = h - 1]
=============================================================================
