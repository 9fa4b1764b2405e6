SPECIFICATION Spec
CONSTANTS
  How = "unchecked"
  Eager = FALSE
  MaxSaves = 3
INVARIANTS FileHoldsAVersion RefusalIsTold NeverAnother CutsNoticed
CHECK_DEADLOCK FALSE
