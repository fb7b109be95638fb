----------------------------- MODULE ScreenText -----------------------------
(* All histories of text operations on a small screen buffer (C03).           *)
EXTENDS ScreenBuf, Json
CONSTANTS H, W, Depth, Gen, Long

VARIABLES buf, last, hist
vars == <<buf, last, hist>>
View == buf

Init == buf = BufNew(H, W) /\ last = [op |-> "none"] /\ hist = <<>>

A == <<97, 1>>
Wd == <<19990, 2>>
M == <<769, 0>>
Singles == {A, Wd, M, <<9, 3>>, <<13, 4>>, <<10, 5>>, <<7, 6>>}
Texts == {<<x>> : x \in Singles}
         \cup IF Long THEN {<<A, A>>, <<A, Wd>>, <<Wd, A>>, <<Wd, Wd, Wd>>, <<A, M, Wd>>, <<A, A, A, A, A, A, A>>} ELSE {}
Ls == 0..H
Cs == 0..W
(* In a one-column screen a wide character ends the text.                     *)
Fits(t) == W > 1 \/ \A i \in DOMAIN t : t[i][2] = 2 => i = Len(t)

Ops ==
  {[op |-> "str", t |-> t] : t \in {x \in Texts : Fits(x)}}
  \cup {[op |-> "setcur", l |-> i, c |-> j] : i \in Ls, j \in Cs}
  \cup {[op |-> "at", l |-> i, c |-> j, t |-> <<Wd>>] : i \in Ls, j \in Cs}
  \cup {[op |-> "styledat", l |-> i, c |-> j, f |-> 2, b |-> 0, s |-> 1, t |-> <<A>>] : i \in {0, H}, j \in {0, W - 1}}
  \cup {[op |-> "styled", f |-> 3, b |-> 4, s |-> 0, t |-> t] : t \in {<<A>>, <<Wd>>}}
  \cup {[op |-> "fg", c |-> 2], [op |-> "clr"], [op |-> "nextline", c |-> W - 1]}

Next == \E e \in Ops :
  /\ buf' = BufOp(buf, e)
  /\ last' = e
  /\ hist' = Append(hist, e @@ [on |-> "s"])

Spec == Init /\ [][Next]_vars
Bound == Len(hist) < Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))

BufferOK == BufOK(buf)
CursorOK == buf.c >= 0 /\ buf.l >= 0 /\ buf.l <= H + Depth

(* A styled write that is not ignored leaves no attributes in force.          *)
StyledOK == [][
  last'.op \in {"styled", "styledat"} /\ (last'.op = "styled" \/ InB(buf, last'.l, last'.c))
    => buf'.f = 0 /\ buf'.b = 0 /\ buf'.s = {}
  ]_vars

(* Text outside the screen changes nothing; one character changes only its    *)
(* own cells, those of wide characters it cuts, and the end of its line.      *)
Near == [][
  (last'.op \in {"str", "at", "styledat", "styled"}
     /\ Len(last'.t) = 1 /\ last'.t[1][2] \in {0, 1, 2}) =>
  LET l == IF last'.op \in {"at", "styledat"} THEN last'.l ELSE buf.l
      c == IF last'.op \in {"at", "styledat"} THEN last'.c ELSE buf.c
      Same(i) == buf'.g[i] = buf.g[i]
      line(i) == (i - 1) \div W
      col(i) == (i - 1) % W
  IN \A i \in DOMAIN buf.g :
       \/ Same(i)
       \/ InB(buf, l, c) /\ line(i) = l /\ col(i) \in (c - 2)..(c + 1)
       \/ InB(buf, l, c) /\ last'.t[1][2] = 2 /\ c = W - 1 /\ line(i) = l + 1 /\ col(i) \in {0, 1}
       \/ last'.t[1][2] = 0 /\ c = 0 /\ line(i) = l - 1 /\ col(i) \in (W - 2)..(W - 1)
       \* a mark after the screen's last cell, or beside it, joins the cell before it
       \/ last'.t[1][2] = 0 /\ c = W /\ line(i) = l /\ col(i) \in (W - 2)..(W - 1)
  ]_vars
=============================================================================
