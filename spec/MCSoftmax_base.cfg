CONSTANTS
  N = 4
  K = 5
  Wrong = "base"
SPECIFICATION Spec
INVARIANTS Accepts Shift Twice
CHECK_DEADLOCK FALSE
