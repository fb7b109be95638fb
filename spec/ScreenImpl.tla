----------------------------- MODULE ScreenImpl -----------------------------
(* Design of the incremental refresh: the screen remembers the cells that it  *)
(* believes to be on the terminal (back) and the believed cursor (rc), and    *)
(* sends only what differs.  Output that the device refuses stays queued (q). *)
(* Checked: after every successful refresh the display is the buffer.         *)
EXTENDS ScreenBuf, Json
CONSTANTS H, W, H2, W2, Depth, Gen

VARIABLES buf, back, rc, clear, q, D, stale, fresh, hist
vars == <<buf, back, rc, clear, q, D, stale, fresh, hist>>
View == <<buf, back, rc, clear, q, D, stale, fresh>>

Invalid == BCell(<<-1>>, 1, 0, 0, {})
NoPos == <<-1, -1>>

Init ==
  /\ buf = BufNew(H, W)
  /\ back = [i \in 1..(H * W) |-> BBlank]
  /\ rc = <<0, 0>>
  /\ clear = FALSE /\ q = <<>>
  /\ D = Feed(DevNew(H, W, Junk), <<[o |-> "cup", l |-> 0, c |-> 0], [o |-> "ed", n |-> 2]>>)
  /\ stale = FALSE /\ fresh = TRUE /\ hist = <<>>

(* Tokens for one cell: attributes, then the text.                            *)
CellTokens(cell) ==
  <<[o |-> "sgr", p |-> <<0>> \o (IF cell.f = 0 THEN <<>> ELSE <<29 + cell.f>>)
       \o (IF 1 \in cell.s THEN <<1>> ELSE <<>>)]>>
  \o [k \in DOMAIN cell.t |-> [o |-> "put", c |-> cell.t[k], w |-> IF k = 1 THEN cell.wd ELSE 0]]

(* Redraw(i, a): a = [out, back, rc] after the cells before i.                *)
RECURSIVE Redraw(_, _)
Redraw(i, a) ==
  IF i > buf.h * buf.w THEN a
  ELSE LET cell == buf.g[i]
           pos == <<(i - 1) \div buf.w, (i - 1) % buf.w>>
           bk == IF cell.wd = 2 THEN [a.back EXCEPT ![i] = cell, ![i + 1] = Invalid]
                 ELSE [a.back EXCEPT ![i] = cell]
           mv == IF a.rc = pos THEN <<>> ELSE <<[o |-> "cup", l |-> pos[1], c |-> pos[2]]>>
           a2 == IF a.back[i] = cell THEN [a EXCEPT !.back = bk]
                 ELSE [out |-> a.out \o mv \o CellTokens(cell), back |-> bk,
                       rc |-> <<pos[1], pos[2] + cell.wd>>]
       IN Redraw(i + cell.wd, a2)

Refreshed ==
  LET pre == IF clear THEN <<[o |-> "sgr", p |-> <<0>>], [o |-> "cup", l |-> 0, c |-> 0], [o |-> "ed", n |-> 2]>>
             ELSE <<>>
      a == Redraw(1, [out |-> pre, back |-> back, rc |-> IF clear THEN <<0, 0>> ELSE rc])
      c == ShownCursor(buf)
      mv == IF a.rc = c THEN <<>> ELSE <<[o |-> "cup", l |-> c[1], c |-> c[2]]>>
  IN [out |-> a.out \o <<[o |-> "sgr", p |-> <<0>>]>> \o mv, back |-> a.back, rc |-> c]

H1 == hist' = IF Gen THEN Append(hist, [op |-> "refresh", on |-> "s"]) ELSE hist

Refresh ==
  /\ ~stale
  /\ back' = Refreshed.back /\ rc' = Refreshed.rc /\ clear' = FALSE
  /\ D' = Feed(D, q \o Refreshed.out) /\ q' = <<>>
  /\ fresh' = TRUE
  /\ H1 /\ UNCHANGED <<buf, stale>>

(* The device takes only n tokens and then fails.                             *)
FailedRefresh(n) ==
  LET all == q \o Refreshed.out IN
  /\ ~stale /\ n < Len(all) /\ Len(all) < 24
  /\ back' = [i \in DOMAIN back |-> Invalid] /\ rc' = NoPos /\ clear' = FALSE
  /\ D' = Feed(D, SubSeq(all, 1, n)) /\ q' = SubSeq(all, n + 1, Len(all))
  /\ fresh' = FALSE
  /\ hist' = IF Gen THEN hist \o <<[op |-> "wplan", p |-> <<4 * n, -5, -5>>], [op |-> "refresh", on |-> "s"]>> ELSE hist
  /\ UNCHANGED <<buf, stale>>

Do(e) ==
  /\ buf' = BufOp(buf, e) /\ fresh' = FALSE
  /\ hist' = IF Gen THEN Append(hist, e @@ [on |-> "s"]) ELSE hist
  /\ UNCHANGED <<back, rc, clear, q, D, stale>>

Resize(h, w) ==
  /\ buf' = BufResize(buf, h, w)
  /\ back' = [i \in 1..(h * w) |-> BBlank]
  /\ clear' = TRUE /\ fresh' = FALSE
  /\ D' = DevResize(D, h, w)
  /\ hist' = IF Gen THEN hist \o <<[op |-> "winsz", l |-> h, c |-> w, sig |-> TRUE],
                                   [op |-> "ev", on |-> "s", to |-> 0]>> ELSE hist
  /\ UNCHANGED <<rc, q, stale>>

Texts == { <<<<97, 1>>>>, <<<<19990, 2>>>>, <<<<769, 0>>>> }
Ops == {[op |-> "str", t |-> t] : t \in Texts}
       \cup {[op |-> "setcur", l |-> i, c |-> j] : i \in 0..(H - 1), j \in 0..(W - 1)}
       \cup {[op |-> "fg", c |-> 2], [op |-> "clr"]}

Next ==
  \/ Refresh
  \/ \E n \in {0, 2, 5} : FailedRefresh(n)
  \/ \E e \in Ops : Do(e)
  \/ Resize(H2, W2) \/ Resize(H, W)

Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))

Correct == fresh => /\ D.g = Shown(buf, {1, 2, 4, 8, Hiding, Colours})
                    /\ <<D.l, D.c>> = ShownCursor(buf)
                    /\ ~D.bad
BufferOK == BufOK(buf)
=============================================================================
