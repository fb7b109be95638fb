CONSTANTS
  Depth = 8
  Gen = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Known
PROPERTY Refines
CHECK_DEADLOCK FALSE
