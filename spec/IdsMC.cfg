SPECIFICATION Spec
CONSTANTS
  MaxDepth = 4
  Rich = FALSE
VIEW View
INVARIANT IdOk
PROPERTIES RunsOutLast
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
