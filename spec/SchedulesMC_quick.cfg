SPECIFICATION Spec
CONSTANTS
  MaxSteps = 24
  MaxEvals = 6
  MaxScore = 2
  MaxPatience = 3
INVARIANTS PlateauCount Shape
PROPERTY Idempotent
CHECK_DEADLOCK FALSE
