SPECIFICATION Spec
CONSTANTS
  Rates = {0, 6554, 32768, 65536}
  MaxPasses = 2
  MaxSteps = 5
INVARIANTS NothingAtPrediction Transpose ReadOff MeanIsOne
CHECK_DEADLOCK FALSE
