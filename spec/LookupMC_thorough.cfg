SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 128, 255}
  MaxRows = 3
  MaxIds = 3
  Vals = {0, 1}
INVARIANTS Laws HashesKnown Adjoint
CHECK_DEADLOCK FALSE
