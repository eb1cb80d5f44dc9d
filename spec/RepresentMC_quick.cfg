SPECIFICATION Spec
CONSTANTS
  MaxSeqs = 3
  MaxSeqLen = 3
INVARIANTS SameEverywhere Alone Slopes
CHECK_DEADLOCK FALSE
