SPECIFICATION Spec
CONSTANTS
  How = "built"
  MaxRows = 3
  MaxSize = 3
INVARIANTS ExactlyTheWellFormed InBounds Marks
CHECK_DEADLOCK FALSE
