SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxB = 2
  Guesses = {0, 16384, 65536}
  Smooths = {0, 6554, 16384}
INVARIANTS MissingGivesNothing SmoothedSumsToOne NoPositiveEvidence FormsAgree Local Orthogonal
CHECK_DEADLOCK FALSE
