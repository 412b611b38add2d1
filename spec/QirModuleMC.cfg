SPECIFICATION Spec
CONSTANTS
  MaxMods = 1
  MaxLen = 3
  MaxDepth = 7
  Rich = FALSE
VIEW View
INVARIANTS OutputOk
PROPERTIES Kept Stays Exact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
