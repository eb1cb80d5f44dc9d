SPECIFICATION Spec
CONSTANTS
  Bytes = {5, 255}
  MaxRows = 3
  MaxIds = 2
  Vals = {0, 2}
INVARIANTS Laws HashesKnown Adjoint
CHECK_DEADLOCK FALSE
