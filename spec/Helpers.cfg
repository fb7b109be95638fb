CONSTANTS
  MaxH = 7
  MaxW = 7
SPECIFICATION Spec
INVARIANT Inside
INVARIANT Inverse
CHECK_DEADLOCK FALSE
