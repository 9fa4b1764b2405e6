SPECIFICATION Spec
CONSTANTS
  Legacy = FALSE
  Depth = 4
INVARIANTS SameMeaning RefusedWhenMixed
CHECK_DEADLOCK FALSE
