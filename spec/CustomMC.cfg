SPECIFICATION Spec
CONSTANTS
  Free = 200
  MaxCirc = 2
  MaxClass = 2
  MaxInst = 2
  MaxDepth = 5
  MaxOps = 3
  Rich = FALSE
VIEW View
INVARIANTS Sound Nested
PROPERTIES Isolated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
