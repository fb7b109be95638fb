CONSTANTS
  Start <- Start0
  Step <- Step0
SPECIFICATION RSpec
CHECK_DEADLOCK FALSE
