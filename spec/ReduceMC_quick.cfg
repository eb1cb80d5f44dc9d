CONSTANTS
  MaxSeqs = 3
  MaxSeqLen = 3
  MaxVal = 1
SPECIFICATION Spec
INVARIANT Adjoint
INVARIANT Local
CHECK_DEADLOCK FALSE
