SPECIFICATION Spec
CONSTANTS
  MaxCircs = 1
  MaxLen = 3
  MaxDepth = 5
  Rich = FALSE
VIEW View
INVARIANTS Sound
PROPERTIES Idle
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
