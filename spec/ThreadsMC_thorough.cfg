SPECIFICATION Spec
CONSTANTS
  NT = 2
  MaxOps = 4
  Locked = TRUE
  PerThread = TRUE
INVARIANTS Distinct Isolated Undisturbed Clean Lent NotBlocked LockFree
CHECK_DEADLOCK FALSE
