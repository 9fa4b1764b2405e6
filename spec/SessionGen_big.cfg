SPECIFICATION Spec
CONSTANTS
  L = 9
  MaxOps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
