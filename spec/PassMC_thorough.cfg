CONSTANTS
  MaxLen = 7
  MaxB = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANT GradIsSum
PROPERTY ParamsOnlyInUpdates
PROPERTY UpdateConsumes
CHECK_DEADLOCK FALSE
