SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  MaxPasses = 2
CONSTRAINT Bounded
INVARIANTS Account Untouched
PROPERTIES OnlyThese Undone Restored Consumed
CHECK_DEADLOCK FALSE
