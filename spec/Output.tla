------------------------------- MODULE Output -------------------------------
(* Design of the buffered output of a terminal: q is the buffer (at most Cap  *)
(* units), the device takes a whole write, one unit of it, nothing, or is     *)
(* interrupted or fails, as a plan says.  Checked: Delivered.                 *)
EXTENDS OutRules, FiniteSets, TLC, Json
CONSTANTS Cap, Lens, PlanLen, Depth, Gen, Unit

VARIABLES q, got, acc, guard, synced, hist
vars == <<q, got, acc, guard, synced, hist>>
Rel(u) == <<u[1] - Len(acc), u[2]>>
View == <<[i \in DOMAIN q |-> Rel(q[i])], guard, synced>>

Acts == {"full", "short", "zero", "eintr", "err"}
Plans == UNION {[1..n -> Acts] : n \in 0..PlanLen}

Init == q = <<>> /\ got = <<>> /\ acc = <<>> /\ guard = FALSE /\ synced = TRUE /\ hist = <<>>

(* Write buf under plan p: [n: units delivered, ok, p: rest of the plan].     *)
RECURSIVE Data(_, _, _)
Data(len, n, p) ==
  IF n = len THEN [n |-> n, ok |-> TRUE, p |-> p]
  ELSE IF p = <<>> THEN [n |-> len, ok |-> TRUE, p |-> p]
  ELSE CASE Head(p) = "full" -> [n |-> len, ok |-> TRUE, p |-> Tail(p)]
         [] Head(p) = "short" -> Data(len, n + 1, Tail(p))
         [] Head(p) = "eintr" -> Data(len, n, Tail(p))
         [] OTHER -> [n |-> n, ok |-> FALSE, p |-> Tail(p)]

(* x = [q, got, p, ok]                                                        *)
Flush(x) ==
  LET r == Data(Len(x.q), 0, x.p) IN
  [q |-> SubSeq(x.q, r.n + 1, Len(x.q)), got |-> x.got \o SubSeq(x.q, 1, r.n), p |-> r.p, ok |-> r.ok]

Write(x0, us) ==
  LET x == IF Len(us) + Len(x0.q) > Cap THEN Flush(x0) ELSE x0 IN
  IF ~x.ok THEN x
  ELSE IF Len(us) > Cap
  THEN LET r == Data(Len(us), 0, x.p) IN [x EXCEPT !.got = @ \o SubSeq(us, 1, r.n), !.p = r.p, !.ok = r.ok]
  ELSE [x EXCEPT !.q = @ \o us]

Code(p) == [i \in DOMAIN p |-> CASE p[i] = "full" -> 1000000 [] p[i] = "short" -> Unit
                                 [] p[i] = "zero" -> 0 [] p[i] = "eintr" -> -4 [] OTHER -> -5]
X0(p) == [q |-> q, got |-> got, p |-> p, ok |-> TRUE]
Say(p, e) == hist' = hist \o <<[op |-> "wplan", p |-> Code(p)], e>>

(* got as segments                                                            *)
RECURSIVE Segs(_, _)
Segs(g, a) ==
  IF g = <<>> THEN a
  ELSE LET u == Head(g) n == Len(a) IN
       IF n > 0 /\ a[n][1] = u[1] /\ a[n][3] = u[2]
       THEN Segs(Tail(g), [a EXCEPT ![n] = <<@[1], @[2], @[3] + 1>>])
       ELSE Segs(Tail(g), Append(a, <<u[1], u[2], u[2] + 1>>))

Put(len, p) ==
  LET k == Len(acc) + 1
      us == [i \in 1..len |-> <<k, i - 1>>]
      x == Write(X0(p), us)
      y == IF guard THEN x ELSE Flush(x)
  IN /\ q' = y.q /\ got' = y.got
     /\ acc' = Append(acc, [op |-> k, ok |-> x.ok, len |-> IF x.ok THEN len ELSE Arrived(Segs(x.got, <<>>), k)])
     /\ synced' = (~guard /\ y.ok)
     /\ Say(p, [op |-> "str", on |-> IF guard THEN "w" ELSE "t", pat |-> <<k, len * Unit>>])
     /\ UNCHANGED guard

DoFlush(p) ==
  /\ guard
  /\ LET y == Flush(X0(p)) IN q' = y.q /\ got' = y.got /\ synced' = y.ok
  /\ Say(p, [op |-> "flush", on |-> "w"]) /\ UNCHANGED <<acc, guard>>

Lock == /\ ~guard /\ guard' = TRUE /\ Say(<<>>, [op |-> "lockw"]) /\ UNCHANGED <<q, got, acc, synced>>
Unlock(p) ==
  /\ guard /\ guard' = FALSE
  /\ LET y == Flush(X0(p)) IN q' = y.q /\ got' = y.got /\ synced' = y.ok
  /\ Say(p, [op |-> "unlockw"]) /\ UNCHANGED acc

Next == \/ \E len \in Lens, p \in Plans : Put(len, p)
        \/ \E p \in Plans : DoFlush(p) \/ Unlock(p)
        \/ Lock

Spec == Init /\ [][Next]_vars
Bound == Len(hist) < 2 * Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))

Exact == [][Delivered(Segs(got', <<>>), acc', synced') = ""]_vars
=============================================================================
