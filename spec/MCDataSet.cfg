SPECIFICATION Spec
CONSTANTS
  How = "built"
  MaxRows = 2
  MaxSize = 2
INVARIANTS ExactlyTheWellFormed InBounds Marks
CHECK_DEADLOCK FALSE
