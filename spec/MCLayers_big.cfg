SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  MaxX = 4
  MaxK = 3
  MaxN = 2
  Seeds = 3
  Variant = "ok"
INVARIANTS BackIsDerivative GradIsDerivative Ascends MeanInUse
CHECK_DEADLOCK FALSE
