CONSTANTS
  Vals = {0, 1}
  MaxDim = 4
  MaxCells = 6
  Classes_ = 5
SPECIFICATION Spec
INVARIANT Product
INVARIANT Affinity
INVARIANT Shapes
INVARIANT OneHots
INVARIANT Nests
CHECK_DEADLOCK FALSE
