SPECIFICATION Spec
CONSTANTS
  Legacy = TRUE
  Depth = 3
INVARIANTS SameMeaning RefusedWhenMixed
CHECK_DEADLOCK FALSE
