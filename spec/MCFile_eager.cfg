SPECIFICATION Spec
CONSTANTS
  How = "atomic"
  Eager = TRUE
  MaxSaves = 3
INVARIANTS FileHoldsAVersion RefusalIsTold NeverAnother CutsNoticed
CHECK_DEADLOCK FALSE
