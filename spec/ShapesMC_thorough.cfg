SPECIFICATION Spec
CONSTANTS
  Widths = {1, 2, 3, 4, 6, 9}
  MaxTree = 17
INVARIANTS AllFits Keeps Again Less Complete NoGuess
CHECK_DEADLOCK FALSE
