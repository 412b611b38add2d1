SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxDepth = 16
  Rich = TRUE
INVARIANT HoldsState
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
