CONSTANTS
  V = 2
  NTrain = 4
  NTest = 2
  Wrong = "none"
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
