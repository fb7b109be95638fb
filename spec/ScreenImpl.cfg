CONSTANTS
  H = 2
  W = 3
  H2 = 2
  W2 = 2
  Depth = 5
  Gen = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Correct
INVARIANT BufferOK
CHECK_DEADLOCK FALSE
