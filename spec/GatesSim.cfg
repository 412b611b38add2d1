SPECIFICATION Spec
CONSTANTS
  MaxObj = 8
  MaxDepth = 14
  Rich = TRUE
  Small = {}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
