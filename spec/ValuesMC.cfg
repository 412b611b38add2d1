SPECIFICATION Spec
CONSTANTS
  MaxObj = 2
  MaxDepth = 5
  Rich = FALSE
VIEW View
INVARIANT TypeOk
PROPERTIES OneAtATime
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
