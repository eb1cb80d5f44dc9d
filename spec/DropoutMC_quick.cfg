SPECIFICATION Spec
CONSTANTS
  Rates = {0, 16384, 65536}
  MaxPasses = 2
  MaxSteps = 4
INVARIANTS NothingAtPrediction Transpose ReadOff MeanIsOne
CHECK_DEADLOCK FALSE
