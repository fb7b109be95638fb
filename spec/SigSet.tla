------------------------------- MODULE SigSet -------------------------------
(* Design of a set of signals as a byte: every operation on bytes is that of  *)
(* the set, and no bit beyond the known signals is ever set.                  *)
EXTENDS SigRules, TLC, Json, Bitwise
CONSTANTS Depth, Gen
VARIABLES b, hist
vars == <<b, hist>>
View == b

AllBits == 63
Not8(x) == 255 - x
Init == b = 0 /\ hist = <<>>
Do(x, e) == b' = x /\ hist' = Append(hist, e)
O(o, m) == [op |-> o, m |-> m]

Next ==
  \/ \E k \in All : \/ Do(b | Pow[k + 1], [op |-> "ins", k |-> k])
                    \/ Do(b & Not8(Pow[k + 1]), [op |-> "rem", k |-> k])
  \/ \E m \in 0..63 :
       \/ \E o \in {"or", "union"} : Do(b | m, O(o, m))
       \/ \E o \in {"and", "inter"} : Do(b & m, O(o, m))
       \/ \E o \in {"sub", "diff"} : Do(b & Not8(m), O(o, m))
       \/ \E o \in {"xor", "symdiff"} : Do(b ^^ m, O(o, m))
       \/ Do(b | (Not8(m) & AllBits), O("orn", m))
       \/ Do(b ^^ (Not8(m) & AllBits), O("xorn", m))
       \/ Do(b & Not8(Not8(m) & AllBits), O("subn", m))
  \/ \E o \in {"not", "inv"} : Do(Not8(b) & AllBits, [op |-> o])
  \/ Do(AllBits, [op |-> "all"]) \/ Do(0, [op |-> "new"])

Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= Depth
Emit == Gen => PrintT("TEST " \o ToJson(hist'))
Known == b <= AllBits
Refines == [][SApply(Of(b), hist'[Len(hist')]) = Of(b')]_vars
=============================================================================
