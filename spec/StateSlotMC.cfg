SPECIFICATION Spec
CONSTANTS
  MaxN = 1
  MaxDepth = 4
  Rich = FALSE
VIEW View
INVARIANT HoldsState
PROPERTIES Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
