CONSTANTS
  MaxLen = 5
  MaxB = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANT GradIsSum
PROPERTY ParamsOnlyInUpdates
PROPERTY UpdateConsumes
CHECK_DEADLOCK FALSE
