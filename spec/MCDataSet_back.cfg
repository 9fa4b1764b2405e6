SPECIFICATION Spec
CONSTANTS
  How = "back"
  MaxRows = 2
  MaxSize = 2
INVARIANTS ExactlyTheWellFormed InBounds Marks
CHECK_DEADLOCK FALSE
