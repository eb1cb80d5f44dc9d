SPECIFICATION Spec
CONSTANTS
  Small = {0, 45056, 98304, 180224, 20480}
  DSmall = {65536, 163840, 8192}
  MaxLayer = 17
INVARIANTS SlopeOK Shapes
CHECK_DEADLOCK FALSE
