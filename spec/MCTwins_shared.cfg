SPECIFICATION Spec
INVARIANT Values
INVARIANT Twin
PROPERTY Apart
CHECK_DEADLOCK FALSE
CONSTANTS
 Nets = {1, 2}
 Files = {1}
 Inputs = {1, 2}
 MaxOps = 5
 SHARED = {"optimizer"}
 LOST = {}
 RESET = {}
