-------------------------------- MODULE Mouse --------------------------------
(* All short strings after the introducer of a mouse report: the parser of    *)
(* InputRules accepts exactly the well-formed reports, consumes exactly the   *)
(* report, and every accepted report is decoded by its definition.            *)
EXTENDS InputRules, TLC, Json
CONSTANTS Alphabet, MaxLen, Gen
VARIABLE s
Init == s = <<>>
Next == \E a \in Alphabet : s' = Append(s, a)
Spec == Init /\ [][Next]_s
Bound == Len(s) < MaxLen

Digits(i, j) == i <= j /\ \A k \in i..j : s[k] >= 48 /\ s[k] <= 57
RECURSIVE Value(_, _)
Value(i, j) == IF j < i THEN 0 ELSE 10 * Value(i, j - 1) + s[j] - 48
Splits == {x \in (1..Len(s)) \X (1..Len(s)) \X (1..Len(s)) :
             /\ x[1] < x[2] /\ x[2] < x[3]
             /\ s[x[1]] = 59 /\ s[x[2]] = 59 /\ s[x[3]] \in {77, 109}
             /\ Digits(1, x[1] - 1) /\ Digits(x[1] + 1, x[2] - 1) /\ Digits(x[2] + 1, x[3] - 1)
             /\ Value(x[1] + 1, x[2] - 1) > 0 /\ Value(x[2] + 1, x[3] - 1) > 0}
What(n, end) ==
  LET b == n - (IF (n \div 4) % 2 = 1 THEN 4 ELSE 0) - (IF (n \div 8) % 2 = 1 THEN 8 ELSE 0) - (IF (n \div 16) % 2 = 1 THEN 16 ELSE 0)
  IN IF b < 4 THEN <<IF end = 77 THEN "press" ELSE "release", b>>
     ELSE IF b = 64 THEN <<"wheelup", 0>> ELSE IF b = 65 THEN <<"wheeldown", 0>> ELSE <<"motion", 0>>

Correct ==
  LET r == Mouse(s, 1, Len(s)) IN
  IF Splits = {} THEN ~r.ok
  ELSE /\ Cardinality(Splits) = 1
       /\ LET x == CHOOSE y \in Splits : TRUE
              n == Value(1, x[1] - 1)
          IN /\ r.ok /\ r.next = x[3] + 1
             /\ r.ev.c = <<0, Value(x[1] + 1, x[2] - 1) - 1>> /\ r.ev.l = <<0, Value(x[2] + 1, x[3] - 1) - 1>>
             /\ <<r.ev.i, r.ev.b>> = What(n, s[x[3]])
             /\ r.ev.mods = (IF (n \div 4) % 2 = 1 THEN {"shift"} ELSE {}) \cup (IF (n \div 8) % 2 = 1 THEN {"alt"} ELSE {})
                            \cup (IF (n \div 16) % 2 = 1 THEN {"ctrl"} ELSE {})
Emit == (Gen /\ Cardinality({i \in DOMAIN s' : s'[i] = 59}) = 2 /\ Cardinality({i \in DOMAIN s' : s'[i] \in {77, 109}}) > 0) => PrintT("TEST " \o ToJson(s'))
=============================================================================
