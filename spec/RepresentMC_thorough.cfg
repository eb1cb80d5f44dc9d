SPECIFICATION Spec
CONSTANTS
  MaxSeqs = 4
  MaxSeqLen = 4
INVARIANTS SameEverywhere Alone Slopes
CHECK_DEADLOCK FALSE
