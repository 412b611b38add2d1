SPECIFICATION Spec
CONSTANTS
  MaxObj = 4
  MaxDepth = 25
  Rich = TRUE
INVARIANT TypeOk
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
