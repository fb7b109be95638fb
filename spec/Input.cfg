CONSTANTS
  Family = "bytes"
  Depth = 3
  Gen = TRUE
  Cap = 4
  PlanLen = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Allows
CHECK_DEADLOCK FALSE
