SPECIFICATION Spec
CONSTANTS
  MaxC = 13
  MaxX = 4
  Variant = "ok"
INVARIANTS Size Places Once OnlyThose NoEmptyRow DatumOnce
CHECK_DEADLOCK FALSE
