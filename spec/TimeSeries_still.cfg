SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxR = 3
  Moving = FALSE
INVARIANTS InOrder WindowsAreWhole NoDatumTwice Coverage
CHECK_DEADLOCK FALSE
