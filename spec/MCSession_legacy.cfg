SPECIFICATION Spec
CONSTANTS
  MaxCalls = 4
  Legacy = TRUE
  Ops = {"start", "eval", "stop", "train", "save", "copy", "destroy"}
PROPERTY Returns
CHECK_DEADLOCK FALSE
