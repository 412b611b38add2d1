SPECIFICATION Spec
CONSTANTS
  MaxDepth = 16
  Rich = TRUE
INVARIANT IdOk
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
