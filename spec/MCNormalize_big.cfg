CONSTANTS
  V = 3
  NTrain = 5
  NTest = 2
  Wrong = "none"
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
