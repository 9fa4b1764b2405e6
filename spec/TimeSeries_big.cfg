SPECIFICATION Spec
CONSTANTS
  MaxN = 10
  MaxR = 5
  Moving = TRUE
INVARIANTS InOrder WindowsAreWhole NoDatumTwice Coverage
CHECK_DEADLOCK FALSE
