SPECIFICATION Spec
CONSTANTS
  How = "removes"
  Eager = FALSE
  MaxSaves = 3
INVARIANTS FileHoldsAVersion RefusalIsTold NeverAnother CutsNoticed
CHECK_DEADLOCK FALSE
