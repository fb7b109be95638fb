CONSTANTS
  H = 2
  W = 3
  Depth = 3
  Gen = TRUE
  Long = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT BufferOK
INVARIANT CursorOK
PROPERTY StyledOK
PROPERTY Near
CHECK_DEADLOCK FALSE
