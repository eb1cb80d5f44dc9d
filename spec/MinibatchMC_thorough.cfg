SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxSize = 3
  MaxPasses = 2
  OrderOf = "pass"
INVARIANTS Complete NoneTwice
PROPERTY Accepted
CHECK_DEADLOCK FALSE
