CONSTANTS
  Vals = {0, 1, 2}
  MaxDim = 2
  MaxCells = 4
  Classes_ = 3
SPECIFICATION Spec
INVARIANT Product
INVARIANT Affinity
INVARIANT Shapes
INVARIANT OneHots
INVARIANT Nests
CHECK_DEADLOCK FALSE
