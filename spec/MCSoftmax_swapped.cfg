CONSTANTS
  N = 4
  K = 5
  Wrong = "swapped"
SPECIFICATION Spec
INVARIANTS Accepts Shift Twice
CHECK_DEADLOCK FALSE
