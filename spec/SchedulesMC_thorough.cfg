SPECIFICATION Spec
CONSTANTS
  MaxSteps = 24
  MaxEvals = 9
  MaxScore = 3
  MaxPatience = 4
INVARIANTS PlateauCount Shape
PROPERTY Idempotent
CHECK_DEADLOCK FALSE
