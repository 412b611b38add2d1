SPECIFICATION Spec
CONSTANTS
  MaxMods = 3
  MaxLen = 30
  MaxDepth = 36
  Rich = TRUE
INVARIANTS OutputOk
PROPERTIES Kept Stays Exact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
