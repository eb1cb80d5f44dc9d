SPECIFICATION Spec
CONSTANTS
  MaxUpdates = 3
  Grads = {0, 3, 5}
  Algos = {"sgd", "adam", "radam"}
INVARIANTS Independent Counts ClipBound First AvgBound SmaBounds
CHECK_DEADLOCK FALSE
