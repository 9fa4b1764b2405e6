SPECIFICATION Spec
CONSTANTS
  MaxX = 4
  MaxK = 2
  MaxN = 2
  Variant = "ok"
INVARIANTS Chains AddsUp Readable
CHECK_DEADLOCK FALSE
