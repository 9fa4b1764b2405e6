SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxK = 2
  MaxN = 2
  Variant = "swapped"
INVARIANTS Chains AddsUp Readable
CHECK_DEADLOCK FALSE
