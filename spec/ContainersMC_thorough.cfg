CONSTANTS
  MaxSeqs = 4
  MaxSeqLen = 2
  MaxLen = 3
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Holds
INVARIANT Padded
INVARIANT Count2
INVARIANT OneTrip
CHECK_DEADLOCK FALSE
