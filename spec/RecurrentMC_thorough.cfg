SPECIFICATION Spec
CONSTANTS
  MaxB = 6
  MaxLen = 6
  Small = {0, 16384, 32768, 65536, 98304, 200000}
INVARIANTS ReadsOwnSteps AllComputed GradientsReturn LatchOK SlopeOK
CHECK_DEADLOCK FALSE
