SPECIFICATION Spec
INVARIANT Forgets
CHECK_DEADLOCK FALSE
CONSTANTS
 DEV <- AsBuilt
 Values <- Values1
 Weights <- Weights1
 Pasts <- Pasts1
 Kinds = {"rec", "gru"}
