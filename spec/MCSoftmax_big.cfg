CONSTANTS
  N = 6
  K = 6
  Wrong = "none"
SPECIFICATION Spec
INVARIANTS Accepts Shift Twice
CHECK_DEADLOCK FALSE
