SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxDepth = 3
  Rich = FALSE
  NQ = 4
  NB = 2
  Small = {5, 8, 15, 19, 24}
VIEW View
INVARIANTS RightNumber ControlThenTarget
PROPERTIES OneAtATime KindsStay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
