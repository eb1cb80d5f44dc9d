CONSTANTS
  MaxSeqs = 3
  MaxSeqLen = 2
  MaxLen = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Holds
INVARIANT Padded
INVARIANT Count2
INVARIANT OneTrip
CHECK_DEADLOCK FALSE
