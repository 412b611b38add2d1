SPECIFICATION Spec
CONSTANTS
  MaxRegs = 2
  MaxDepth = 5
  Rich = FALSE
VIEW View
INVARIANT ParOk
PROPERTIES Stable ExitFreezes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
