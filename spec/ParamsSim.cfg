SPECIFICATION Spec
CONSTANTS
  MaxRegs = 4
  MaxDepth = 30
  Rich = TRUE
INVARIANT ParOk
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
