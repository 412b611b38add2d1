SPECIFICATION Spec
CONSTANTS
  MaxCircs = 3
  MaxLen = 24
  MaxDepth = 36
  Rich = TRUE
INVARIANTS Indexed
PROPERTIES Idle
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
