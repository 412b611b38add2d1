SPECIFICATION Spec
CONSTANTS
  Shape = "c17"
  Rich = TRUE
  MaxDepth = 36
  MaxOps = 90
  NQ = 5
  NB = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
