SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  MaxX = 3
  MaxK = 2
  MaxN = 2
  Seeds = 1
  Variant = "transposed"
INVARIANTS BackIsDerivative GradIsDerivative Ascends MeanInUse
CHECK_DEADLOCK FALSE
