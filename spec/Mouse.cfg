CONSTANTS
  Alphabet = {48, 49, 54, 59, 77, 109, 120}
  MaxLen = 6
  Gen = TRUE
SPECIFICATION Spec
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Correct
CHECK_DEADLOCK FALSE
