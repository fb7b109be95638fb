------------------------------ MODULE SigTrace ------------------------------
(* Results of all operations on all real sets of signals, and histories.      *)
EXTENDS SigRules, Replay
Start0(e) == {}
Say(s, ok, w) == [s |-> s, why |-> IF ok THEN "" ELSE w]
Step0(s, e) ==
  IF e.op \in {"hang", "abort", "died"} THEN Say(s, FALSE, e.op)
  ELSE IF e.op = "sig0"
  THEN LET w == CASE e.new # 0 -> "new" [] e.all # 63 -> "all" [] e.default # 0 -> "default"
                  [] e.from # Each(LAMBDA k : Mask({k})) -> "from(signal)"
                  [] e.nots # Each(LAMBDA k : Mask(Inv({k}))) -> "!signal"
                  [] e["or"] # Each(LAMBDA k : Each(LAMBDA j : Mask({k, j}))) -> "signal | signal"
                  [] OTHER -> ""
       IN Say(s, w = "", w \o " gives a wrong set")
  ELSE IF e.op = "sig1"
  THEN LET X == Of(e.a)
           w == CASE e.mem # e.a -> "insert"
                  [] e.ins # Each(LAMBDA k : Mask(X \cup {k})) -> "insert"
                  [] e.rem # Each(LAMBDA k : Mask(X \ {k})) -> "remove"
                  [] e.sett # Each(LAMBDA k : Mask(X \cup {k})) -> "set(true)"
                  [] e.setf # Each(LAMBDA k : Mask(X \ {k})) -> "set(false)"
                  [] e.has # Each(LAMBDA k : B(k \in X)) -> "contains"
                  [] e.empty # B(X = {}) -> "is_empty"
                  [] e.inv # Mask(Inv(X)) -> "inverse"
                  [] e["not"] # Mask(Inv(X)) -> "!"
                  [] e.iter # e.a \/ e.iterrev # e.a -> "collect"
                  [] e.dbg # Text(X) \/ e.dbginv # Text(Inv(X)) -> "Debug"
                  [] OTHER -> ""
       IN Say(s, w = "", w \o " is wrong for a set")
  ELSE IF e.op = "sig2"
  THEN LET X == Of(e.a) IN
       Say(s, Len(e.ret) = 64 /\ \A y \in 0..63 : e.ret[y + 1] = Bin(e.f, X, Of(y)), e.f \o " is wrong for two sets")
  ELSE LET Y == SApply(s, e) IN
       Say(Y, e.ret = Mask(Y) /\ e.empty = (Y = {}) /\ e.dbg = Text(Y), e.op \o " gives a wrong set")
=============================================================================
