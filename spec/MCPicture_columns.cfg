SPECIFICATION Spec
CONSTANTS
  MaxC = 7
  MaxX = 2
  Variant = "columns"
INVARIANTS Size Places Once OnlyThose NoEmptyRow DatumOnce
CHECK_DEADLOCK FALSE
