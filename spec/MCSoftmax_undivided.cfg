CONSTANTS
  N = 4
  K = 5
  Wrong = "undivided"
SPECIFICATION Spec
INVARIANTS Accepts Shift Twice
CHECK_DEADLOCK FALSE
