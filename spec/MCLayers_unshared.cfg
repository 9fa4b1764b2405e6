SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  MaxX = 3
  MaxK = 2
  MaxN = 2
  Seeds = 1
  Variant = "unshared"
INVARIANTS BackIsDerivative GradIsDerivative Ascends MeanInUse
CHECK_DEADLOCK FALSE
