------------------------------ MODULE KeyRules ------------------------------
(* The key a character stands for.  A key is <<name, number>>.                *)
EXTENDS Integers, Sequences

IsCtrl(c) == c <= 31
LowerUnctrl(c) == IF c = 0 THEN 64 ELSE IF c <= 26 THEN c + 96 ELSE c + 64
KeyOf(c) ==
  CASE c = 27 -> <<"Escape", 0>>
    [] c = 127 -> <<"Backspace", 0>>
    [] c \in {10, 13} -> <<"Enter", 0>>
    [] c = 9 -> <<"Tab", 0>>
    [] IsCtrl(c) /\ c \notin {9, 10, 13, 27} -> <<"Ctrl", LowerUnctrl(c)>>
    [] OTHER -> <<"Char", c>>
=============================================================================
