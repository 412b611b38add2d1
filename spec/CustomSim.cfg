SPECIFICATION Spec
CONSTANTS
  Free = 200
  MaxCirc = 4
  MaxClass = 4
  MaxInst = 6
  MaxDepth = 20
  MaxOps = 5
  Rich = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
