SPECIFICATION RSpec
CONSTANTS
  Start <- Start0
  Step <- Step0
CHECK_DEADLOCK FALSE
