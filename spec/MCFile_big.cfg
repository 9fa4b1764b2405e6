SPECIFICATION Spec
CONSTANTS
  How = "atomic"
  Eager = FALSE
  MaxSaves = 6
INVARIANTS FileHoldsAVersion RefusalIsTold NeverAnother CutsNoticed
CHECK_DEADLOCK FALSE
