------------------------------ MODULE SigRules ------------------------------
(* Sets of signals (C18).  Signals are 0..5, a set is given as a mask.        *)
EXTENDS Integers, Sequences, FiniteSets

All == 0..5
Names == <<"Break", "Continue", "Interrupt", "Resize", "Suspend", "Quit">>
Pow == <<1, 2, 4, 8, 16, 32>>
Of(m) == {k \in All : (m \div Pow[k + 1]) % 2 = 1}
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Pow[k + 1] + Mask(S \ {k})
SymDiff(X, Y) == (X \ Y) \cup (Y \ X)
Inv(X) == All \ X
B(x) == IF x THEN 1 ELSE 0

RECURSIVE Join(_, _)
Join(S, first) ==
  IF S = {} THEN ""
  ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y
       IN (IF first THEN "" ELSE " | ") \o Names[k + 1] \o Join(S \ {k}, FALSE)
Text(S) == "SignalSet(" \o Join(S, TRUE) \o ")"

\* Masks of sets, one for each signal
Each(f(_)) == [i \in 1..6 |-> f(i - 1)]

Bin(f, X, Y) ==
  CASE f \in {"union", "or", "orassign", "extend"} -> Mask(X \cup Y)
    [] f \in {"inter", "and", "andassign"} -> Mask(X \cap Y)
    [] f \in {"diff", "sub", "subassign"} -> Mask(X \ Y)
    [] f \in {"symdiff", "xor", "xorassign"} -> Mask(SymDiff(X, Y))
    [] f = "containsall" -> B(Y \subseteq X)
    [] f = "intersects" -> B(X \cap Y # {})
    [] f = "eq" -> B(X = Y)
    [] f = "ne" -> B(X # Y)

SApply(X, e) ==
  LET Y == IF "m" \in DOMAIN e THEN Of(e.m) ELSE {}
      k == IF "k" \in DOMAIN e THEN e.k ELSE 0
  IN CASE e.op = "ins" -> X \cup {k} [] e.op = "rem" -> X \ {k}
       [] e.op \in {"or", "union"} -> X \cup Y [] e.op \in {"and", "inter"} -> X \cap Y
       [] e.op \in {"sub", "diff"} -> X \ Y [] e.op \in {"xor", "symdiff"} -> SymDiff(X, Y)
       [] e.op \in {"not", "inv"} -> Inv(X)
       [] e.op = "all" -> All [] e.op = "new" -> {}
       [] e.op = "orn" -> X \cup Inv(Y) [] e.op = "xorn" -> SymDiff(X, Inv(Y)) [] e.op = "subn" -> X \ Inv(Y)
=============================================================================
