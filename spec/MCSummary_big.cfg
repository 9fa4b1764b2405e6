SPECIFICATION Spec
CONSTANTS
  MaxX = 6
  MaxK = 3
  MaxN = 3
  Variant = "ok"
INVARIANTS Chains AddsUp Readable
CHECK_DEADLOCK FALSE
