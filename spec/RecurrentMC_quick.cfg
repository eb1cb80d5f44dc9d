SPECIFICATION Spec
CONSTANTS
  MaxB = 4
  MaxLen = 4
  Small = {0, 32768, 98304}
INVARIANTS ReadsOwnSteps AllComputed GradientsReturn LatchOK SlopeOK
CHECK_DEADLOCK FALSE
