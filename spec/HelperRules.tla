----------------------------- MODULE HelperRules ----------------------------
(* Keys of characters, control characters, cursors, sizes, prefixes (C19).    *)
EXTENDS Integers, Sequences, KeyRules

MaxCode == 1114111
Chars == (0..55295) \cup (57344..MaxCode)
CtrlOf(c) == c % 32                    \* of @ to _ and ` to ~
UpperUnctrl(c) == c + 64
Prefixes(t) == [i \in 1..Len(t) |-> SubSeq(t, 1, i)]

(* Blocks of characters <<first, last, width, combining>> on which all versions *)
(* of the Unicode standard agree.                                             *)
Blocks == {
  <<0, 31, 0, FALSE>>, <<127, 159, 0, FALSE>>,                                   \* controls
  <<32, 126, 1, FALSE>>, <<161, 172, 1, FALSE>>, <<174, 383, 1, FALSE>>,          \* Latin
  <<913, 929, 1, FALSE>>, <<931, 937, 1, FALSE>>, <<945, 969, 1, FALSE>>,         \* Greek
  <<1040, 1103, 1, FALSE>>, <<1488, 1514, 1, FALSE>>, <<1569, 1594, 1, FALSE>>,   \* Cyrillic, Hebrew, Arabic
  <<8704, 8945, 1, FALSE>>, <<9472, 9599, 1, FALSE>>, <<8592, 8596, 1, FALSE>>,   \* symbols, box drawing, arrows
  <<768, 846, 0, TRUE>>, <<848, 855, 0, TRUE>>, <<1155, 1158, 0, TRUE>>,          \* combining marks without width
  <<1425, 1441, 0, TRUE>>, <<1611, 1618, 0, TRUE>>, <<8400, 8412, 0, TRUE>>,
  <<12441, 12442, 0, TRUE>>, <<65056, 65059, 0, TRUE>>,
  <<4352, 4370, 2, FALSE>>, <<12353, 12436, 2, FALSE>>, <<12449, 12538, 2, FALSE>>, \* Hangul initials, Kana
  <<13312, 19893, 2, FALSE>>, <<19968, 40869, 2, FALSE>>, <<44032, 55203, 2, FALSE>>, \* ideographs, Hangul
  <<63744, 64045, 2, FALSE>>, <<65281, 65374, 2, FALSE>>, <<65504, 65510, 2, FALSE>>,
  <<131072, 173782, 2, FALSE>> }
InRun(b, runs) == \E i \in DOMAIN runs : runs[i][1] <= b[1] /\ b[2] <= runs[i][2]
Apart(b, runs) == \A i \in DOMAIN runs : runs[i][2] < b[1] \/ b[2] < runs[i][1]
WidthRuns(w, runs) == \A b \in Blocks : IF b[3] = w THEN InRun(b, runs) ELSE Apart(b, runs)
CombRuns(runs) == \A b \in Blocks : IF b[4] THEN InRun(b, runs) ELSE Apart(b, runs)

(* Cells in row-major order.                                                  *)
Index(l, c, w) == l * w + c
CellAt(i, w) == <<i \div w, i % w>>
NextCell(l, c, h, w) == IF Index(l, c, w) + 1 < h * w THEN CellAt(Index(l, c, w) + 1, w) ELSE <<>>
PrevCell(l, c, h, w) == IF Index(l, c, w) > 0 THEN CellAt(Index(l, c, w) - 1, w) ELSE <<>>
Out(l, c, h, w) == l >= h \/ c >= w

(* (m1 * 2^e1) * (m2 * 2^e2) with odd m1, m2 (or zero) as <<odd, exponent>>,  *)
(* <<>> if it does not fit into 64 bits.                                      *)
Area(m1, e1, m2, e2) ==
  LET p == m1 * m2 e == e1 + e2 IN
  IF p = 0 THEN <<0, 0>>
  ELSE IF e >= 64 \/ (64 - e <= 6 /\ p >= 2 ^ (64 - e)) THEN <<>> ELSE <<p, e>>
=============================================================================
