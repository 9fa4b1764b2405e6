SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxK = 2
  MaxN = 2
  Variant = "units"
INVARIANTS Chains AddsUp Readable
CHECK_DEADLOCK FALSE
