SPECIFICATION Spec
CONSTANTS
  MaxUpdates = 2
  Grads = {0, 3, 5}
  Algos = {"sgd", "adam", "radam"}
INVARIANTS Independent Counts ClipBound First AvgBound SmaBounds
CHECK_DEADLOCK FALSE
