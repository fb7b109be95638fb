------------------------------ MODULE SeqRules ------------------------------
(* The map from sequences to values (C17) as a function.  A sequence is a     *)
(* sequence of code points; their order is that of the text.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

RECURSIVE Less(_, _)
Less(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Starts(k, p) == Len(p) < Len(k) /\ SubSeq(k, 1, Len(p)) = p

MEmpty == [k \in {} |-> 0]
Set(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
List(m) == LET s == SetToSortSeq(DOMAIN m, Less) IN [i \in DOMAIN s |-> <<s[i], m[s[i]]>>]

(* What a lookup by partial input says.                                       *)
Find(m, k) ==
  LET more == \E x \in DOMAIN m : Starts(x, k) IN
  IF k \in DOMAIN m THEN <<IF more THEN "und" ELSE "found", m[k]>> ELSE <<IF more THEN "inc" ELSE "none">>

First(p) == FoldLeft(LAMBDA m, x : IF x[1] \in DOMAIN m THEN m ELSE Set(m, x[1], x[2]), MEmpty, p)
Last1(p) == FoldLeft(LAMBDA m, x : Set(m, x[1], x[2]), MEmpty, p)

Res(m, r) == [m |-> m, ret |-> r]
(* The map after operation e and what the operation returns.                  *)
MApply(m, e) ==
  LET op == e.op
      k == IF "k" \in DOMAIN e THEN e.k ELSE <<>>
      x == IF "v" \in DOMAIN e THEN e.v ELSE 0
      has == k \in DOMAIN m
      old == IF has THEN <<m[k]>> ELSE <<>>
      ins == IF has THEN m[k] ELSE x
  IN CASE op \in {"new", "cap", "default"} -> Res(MEmpty, <<>>)
       [] op = "clone" -> Res(m, <<>>)
       [] op = "ins" -> Res(Set(m, k, x), old)
       [] op = "rem" -> Res(Del(m, k), IF has THEN <<k, m[k]>> ELSE <<>>)
       [] op = "get" -> Res(m, old)
       [] op = "getmut" -> Res(IF has THEN Set(m, k, x) ELSE m, old)
       [] op = "find" -> Res(m, Find(m, k))
       [] op = "seqsmut" -> Res([y \in DOMAIN m |-> m[y] + x], <<>>)
       [] op = "vec" -> Res(First(e.p), <<>>)
       [] op = "iter" -> Res(Last1(e.p), <<>>)
       [] op = "ekey" -> Res(m, k)
       [] op = "ekind" -> Res(m, IF has THEN <<"occ", k, m[k]>> ELSE <<"vac", k>>)
       [] op = "eins" -> Res(Set(m, k, ins), <<ins>>)
       [] op = "einsw" -> Res(Set(m, k, ins), <<ins, ~has>>)
       [] op = "einsmut" -> Res(Set(m, k, ins + 100), <<ins + 100>>)
       [] op = "emod" -> LET y == IF has THEN m[k] + 1 ELSE x IN Res(Set(m, k, y), <<y>>)
       [] op = "emod0" -> Res(IF has THEN Set(m, k, x) ELSE m, <<IF has THEN 1 ELSE 0>>)
       [] op = "oins" -> Res(IF has THEN Set(m, k, x) ELSE m, old)
       [] op = "ogetmut" -> Res(IF has THEN Set(m, k, m[k] + 7) ELSE m, IF has THEN <<m[k] + 7>> ELSE <<>>)
       [] op = "ointo" -> Res(IF has THEN Set(m, k, m[k] + 9) ELSE m, IF has THEN <<m[k] + 9>> ELSE <<>>)
       [] op = "orem" -> Res(Del(m, k), old)
       [] op = "oreme" -> Res(Del(m, k), IF has THEN <<k, m[k]>> ELSE <<>>)
       [] op = "vins" -> Res(IF has THEN m ELSE Set(m, k, x + 1000), IF has THEN <<>> ELSE <<x + 1000>>)
       [] op = "vkey" -> Res(m, IF has THEN <<>> ELSE <<k>>)
       [] OTHER -> Res(m, <<"unknown operation">>)
=============================================================================
