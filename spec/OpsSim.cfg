SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  MaxDepth = 30
  Rich = TRUE
  NQ = 5
  NB = 4
  Small = {}
INVARIANTS RightNumber ControlThenTarget
PROPERTIES OneAtATime KindsStay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
