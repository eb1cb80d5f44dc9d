SPECIFICATION Spec
CONSTANTS
  MaxSteps = 8
  MaxPasses = 2
CONSTRAINT Bounded
INVARIANTS Account Untouched
PROPERTIES OnlyThese Undone Restored Consumed
CHECK_DEADLOCK FALSE
