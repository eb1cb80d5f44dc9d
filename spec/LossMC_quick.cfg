SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxB = 2
  Guesses = {0, 50000}
  Smooths = {0, 16384}
INVARIANTS MissingGivesNothing SmoothedSumsToOne NoPositiveEvidence FormsAgree Local Orthogonal
CHECK_DEADLOCK FALSE
