CONSTANTS
  MaxArr = 4
  MaxCalls = 1
  Broken = ""
  Live = TRUE
  Gen = FALSE
SPECIFICATION Fair
INVARIANT Allows
INVARIANT Awake
PROPERTY Reported
CHECK_DEADLOCK FALSE
