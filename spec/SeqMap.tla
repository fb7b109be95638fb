------------------------------- MODULE SeqMap -------------------------------
(* Design of the sequence map: a vector of pairs kept sorted by key, searched *)
(* by bisection; a lookup inspects the place found and its successor.         *)
(* Checked: it refines the function of SeqRules, for all keys at all times.   *)
EXTENDS SeqRules, TLC, Json
CONSTANTS Letters, MaxLen, Vals, Depth, Gen, MaxSize

VARIABLES v, hist
vars == <<v, hist>>
View == v

Keys == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Abs(w) == [k \in {w[i][1] : i \in DOMAIN w} |-> w[CHOOSE i \in DOMAIN w : w[i][1] = k][2]]

(* Bisection in w[lo+1..hi]: <<found, number of elements before the key>>     *)
RECURSIVE Bis(_, _, _, _)
Bis(w, k, lo, hi) ==
  IF lo >= hi THEN <<FALSE, lo>>
  ELSE LET mid == (lo + hi) \div 2 IN
       IF w[mid + 1][1] = k THEN <<TRUE, mid>>
       ELSE IF Less(w[mid + 1][1], k) THEN Bis(w, k, mid + 1, hi) ELSE Bis(w, k, lo, mid)
Search(w, k) == Bis(w, k, 0, Len(w))

Ins(w, k, x) == LET s == Search(w, k) IN
  IF s[1] THEN [w EXCEPT ![s[2] + 1] = <<k, x>>] ELSE InsertAt(w, s[2] + 1, <<k, x>>)
Rem(w, k) == LET s == Search(w, k) IN IF s[1] THEN RemoveAt(w, s[2] + 1) ELSE w
Look(w, k) ==
  LET s == Search(w, k)
      j == s[2] + 1 + (IF s[1] THEN 1 ELSE 0)
      more == j \in DOMAIN w /\ Starts(w[j][1], k)
  IN IF s[1] THEN <<IF more THEN "und" ELSE "found", w[s[2] + 1][2]>> ELSE <<IF more THEN "inc" ELSE "none">>

(* From a vector: stable sort by key, then the first of equal keys.           *)
RECURSIVE SSort(_)
SSort(p) ==
  IF Len(p) < 2 THEN p
  ELSE LET i == CHOOSE j \in DOMAIN p : /\ \A k \in DOMAIN p : ~Less(p[k][1], p[j][1])
                                        /\ \A k \in 1..(j - 1) : p[k][1] # p[j][1]
       IN <<p[i]>> \o SSort(RemoveAt(p, i))
RECURSIVE Dedup(_)
Dedup(p) == IF Len(p) < 2 THEN p
            ELSE IF p[1][1] = p[2][1] THEN Dedup(<<p[1]>> \o SubSeq(p, 3, Len(p))) ELSE <<p[1]>> \o Dedup(Tail(p))

Init == v = <<>> /\ hist = <<>>
Do(w, e) == v' = w /\ hist' = Append(hist, e)
Op(o, k) == [op |-> o, k |-> k]
OpV(o, k, x) == [op |-> o, k |-> k, v |-> x]
Has(k) == Search(v, k)[1]
Val(k) == v[Search(v, k)[2] + 1][2]

Next ==
  \/ \E k \in Keys, x \in Vals :
       \/ Do(Ins(v, k, x), OpV("ins", k, x))
       \/ Do(IF Has(k) THEN v ELSE Ins(v, k, x), OpV("eins", k, x))
       \/ Do(IF Has(k) THEN v ELSE Ins(v, k, x), OpV("einsw", k, x))
       \/ Do(IF Has(k) THEN Ins(v, k, x) ELSE v, OpV("oins", k, x))
       \/ Do(IF Has(k) THEN Ins(v, k, x) ELSE v, OpV("getmut", k, x))
       \/ Do(IF Has(k) THEN Ins(v, k, x) ELSE v, OpV("emod0", k, x))
  \/ \E k \in Keys :
       \/ \E o \in {"rem", "orem", "oreme"} : Do(Rem(v, k), Op(o, k))
       \/ \E o \in {"find", "get", "ekind", "ekey", "vkey"} : Do(v, Op(o, k))
  \/ \E a, b, c \in Keys, x \in Vals :
       LET p == <<<<a, x>>, <<b, 1>>, <<c, 2>>>> IN
       /\ hist = <<>>
       /\ \/ Do(Dedup(SSort(p)), [op |-> "vec", p |-> p])
          \/ Do(Ins(Ins(Ins(<<>>, a, x), b, 1), c, 2), [op |-> "iter", p |-> p])

Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= Depth /\ Len(v) <= MaxSize
Emit == Gen => PrintT("TEST " \o ToJson(hist'))

Sorted == \A i \in 1..(Len(v) - 1) : Less(v[i][1], v[i + 1][1])
Lookup == \A k \in Keys : Look(v, k) = Find(Abs(v), k) /\ (Has(k) <=> k \in DOMAIN Abs(v))
Refines == [][MApply(Abs(v), hist'[Len(hist')]).m = Abs(v')]_vars
=============================================================================
