SPECIFICATION Spec
CONSTANTS
  MaxC = 7
  MaxX = 3
  Variant = "ok"
INVARIANTS Size Places Once OnlyThose NoEmptyRow DatumOnce
CHECK_DEADLOCK FALSE
