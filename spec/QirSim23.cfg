SPECIFICATION Spec
CONSTANTS
  MaxCircs = 4
  MaxTexts = 7
  MaxLen = 24
  MaxDepth = 34
  MinLoad = 0
  Loads = TRUE
  Rich = TRUE
INVARIANTS RoundTrip InRange
PROPERTIES Grows CompileIdle
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
