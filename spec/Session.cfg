CONSTANTS
  Cfgs = {1, 2, 3, 4}
  Faulty = FALSE
  Depth = 6
  Gen = TRUE
  Interfere = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Allowed Clean
CHECK_DEADLOCK FALSE
