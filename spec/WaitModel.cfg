SPECIFICATION Spec
CONSTANTS
  Legacy = FALSE
  Depth = 3
INVARIANTS SameMeaning RefusedWhenMixed
CHECK_DEADLOCK FALSE
