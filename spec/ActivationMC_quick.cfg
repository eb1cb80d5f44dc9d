SPECIFICATION Spec
CONSTANTS
  Step = 16384
  Limit = 40
INVARIANTS Derivative Distribution JacobianT
CHECK_DEADLOCK FALSE
