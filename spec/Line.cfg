CONSTANTS
  H = 2
  W = 3
  Colors = {0, 2, 5}
  Supported = 63
  UlResets = FALSE
  Attrs = TRUE
  Moves = FALSE
  Depth = 4
  Gen = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Right
PROPERTY Exact
CHECK_DEADLOCK FALSE
