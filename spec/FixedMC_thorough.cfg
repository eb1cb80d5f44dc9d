SPECIFICATION Spec
CONSTANTS
  Grid = 4001
  Limit = 190
INVARIANTS MulDiv MulComm SqrtSq ExpAdd ExpMono Odd TanhSigmoid LogExp Known
CHECK_DEADLOCK FALSE
