CONSTANTS
  Step = 8
  Wrong = "table"
SPECIFICATION Spec
INVARIANTS Sum2 Anchor Rises Gauss GAnchor Slopes Symmetric FarJoins
CHECK_DEADLOCK FALSE
