SPECIFICATION Spec
CONSTANTS
  Step = 2048
  Limit = 400
INVARIANTS Derivative Distribution JacobianT
CHECK_DEADLOCK FALSE
