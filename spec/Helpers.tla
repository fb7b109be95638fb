------------------------------ MODULE Helpers -------------------------------
(* The laws behind the definitions of HelperRules, for all cells of all small *)
(* sizes, all control characters and all short texts.                         *)
EXTENDS HelperRules, TLC
CONSTANTS MaxH, MaxW
VARIABLES h, w, l, c
vars == <<h, w, l, c>>

Init == h \in 1..MaxH /\ w \in 1..MaxW /\ l = 0 /\ c = 0
Next == LET n == NextCell(l, c, h, w) IN n # <<>> /\ l' = n[1] /\ c' = n[2] /\ UNCHANGED <<h, w>>
Spec == Init /\ [][Next]_vars

Inside == ~Out(l, c, h, w)
\* Steps are inverse, and the walk visits the cells in order from first to last
Inverse ==
  /\ LET n == NextCell(l, c, h, w) IN n # <<>> => PrevCell(n[1], n[2], h, w) = <<l, c>> /\ Index(n[1], n[2], w) = Index(l, c, w) + 1
  /\ (PrevCell(l, c, h, w) = <<>>) <=> (l = 0 /\ c = 0)
  /\ (NextCell(l, c, h, w) = <<>>) <=> (l = h - 1 /\ c = w - 1)

ASSUME \A x \in 0..31 : IsCtrl(x) /\ ~IsCtrl(UpperUnctrl(x)) /\ CtrlOf(UpperUnctrl(x)) = x
                        /\ ~IsCtrl(LowerUnctrl(x)) /\ CtrlOf(LowerUnctrl(x)) = x /\ ~(LowerUnctrl(x) \in 65..90)
ASSUME \A a, b \in Blocks : a[1] <= a[2] /\ (a = b \/ a[2] < b[1] \/ b[2] < a[1])
ASSUME \A b \in Blocks : b[4] => b[3] = 0
ASSUME \A x \in 64..126 : IsCtrl(CtrlOf(x))
=============================================================================
