SPECIFICATION Spec
INVARIANT NeverRemembers
CHECK_DEADLOCK FALSE
CONSTANTS
 DEV <- NoDev
 Values <- Values1
 Weights <- Weights1
 Pasts <- Pasts1
 Kinds = {"rec", "gru"}
