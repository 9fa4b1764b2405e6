SPECIFICATION Spec
CONSTANTS
  MaxCalls = 4
  Legacy = FALSE
  Ops = {"start", "eval", "stop", "train", "save", "copy", "destroy"}
INVARIANTS OneTraining RefusedWhileTraining ReportsTraining StopIsFinal AtMostTheStepInFlight IdleAcceptsAgain UnfitIsOnlyRefused
PROPERTY Returns
CHECK_DEADLOCK FALSE
