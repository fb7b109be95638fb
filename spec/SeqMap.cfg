CONSTANTS
  Letters = {1, 2}
  MaxLen = 2
  Vals = {0, 1}
  Depth = 9
  MaxSize = 4
  Gen = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Sorted
INVARIANT Lookup
PROPERTY Refines
CHECK_DEADLOCK FALSE
