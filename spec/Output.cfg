CONSTANTS
  Cap = 4
  Lens = {0, 1, 2, 4, 5}
  PlanLen = 2
  Depth = 4
  Gen = TRUE
  Unit = 2048
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
PROPERTY Exact
CHECK_DEADLOCK FALSE
