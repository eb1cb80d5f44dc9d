SPECIFICATION Spec
CONSTANTS
  Grid = 9973
  Limit = 60
INVARIANTS MulDiv MulComm SqrtSq ExpAdd ExpMono Odd TanhSigmoid LogExp Known
CHECK_DEADLOCK FALSE
