SPECIFICATION Spec
INVARIANT Forgets
CHECK_DEADLOCK FALSE
CONSTANTS
 DEV <- NoDev
 Values <- Values2
 Weights <- Weights2
 Pasts <- Pasts1
 Kinds = {"rec", "gru"}
