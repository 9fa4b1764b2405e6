SPECIFICATION Spec
CONSTANTS
  L = 6
  MaxOps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
