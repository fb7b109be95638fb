SPECIFICATION Spec
CONSTANTS
  N = 2
VIEW View
INVARIANTS NoKnot NothingKept
CHECK_DEADLOCK FALSE
