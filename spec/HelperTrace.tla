----------------------------- MODULE HelperTrace ----------------------------
(* Results of the real helper functions.                                      *)
EXTENDS HelperRules, Replay
Start0(e) == [ok |-> TRUE]
Say(s, ok, w) == [s |-> s, why |-> IF ok THEN "" ELSE w]
Step0(s, e) ==
  CASE e.op \in {"hang", "abort", "died"} -> Say(s, FALSE, e.op)
    [] e.op = "keyself" -> Say(s, e.ret.n = 1112064 /\ e.ret.runs = <<<<32, 126>>, <<128, MaxCode>>>>, "characters that are their own key are wrong")
    [] e.op = "key" -> Say(s, <<e.ret.key, e.ret.c>> = KeyOf(e.c) /\ e.into = e.ret, "key of a character is wrong")
    [] e.op = "isctrl" -> Say(s, e.ret.n = 1112064 /\ e.ret.runs = <<<<0, 31>>>>, "is_ctrl is wrong")
    [] e.op = "width" -> Say(s, WidthRuns(e.w, e.ret.runs), "width of characters is wrong")
    [] e.op = "comb" -> Say(s, CombRuns(e.ret.runs), "combining marks are wrong")
    [] e.op = "ctrl" -> Say(s, e.is = IsCtrl(e.c)
                               /\ (IsCtrl(e.c) => e.up = UpperUnctrl(e.c) /\ e.low = LowerUnctrl(e.c))
                               /\ (e.c \in 64..126 => e.ctrl = CtrlOf(e.c)) /\ e.ctrl # -1 /\ IsCtrl(e.ctrl), "control character conversion is wrong")
    [] e.op = "size" -> Say(s, e.area = e.l * e.c /\ e.carea = <<e.l * e.c>> /\ e.first = <<0, 0>>
                               /\ e.last = (IF e.l > 0 /\ e.c > 0 THEN <<e.l - 1, e.c - 1>> ELSE <<>>), "size or corner is wrong")
    [] e.op = "cur" -> Say(s, e.next = NextCell(e.pl, e.pc, e.l, e.c) /\ e.prev = PrevCell(e.pl, e.pc, e.l, e.c) /\ e.from = <<e.pl, e.pc>>,
                           "next or previous cell is wrong")
    [] e.op = "oob" -> Say(s, \A i \in DOMAIN e.ret : e.ret[i][3] = Out(e.ret[i][1], e.ret[i][2], e.l, e.c), "bounds test is wrong")
    [] e.op = "area" -> LET x == Area(e.m1, e.e1, e.m2, e.e2) IN
                        Say(s, e.ret = x /\ e.area = (IF x = <<>> THEN <<"panic">> ELSE x), "area is wrong")
    [] e.op = "hugecur" -> Say(s, e.ok, "last cell of a huge size is wrong")
    [] e.op = "prefixes" -> Say(s, e.ret = Prefixes(e.t), "prefixes are wrong")
=============================================================================
