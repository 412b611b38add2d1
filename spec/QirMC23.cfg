SPECIFICATION Spec
CONSTANTS
  MaxCircs = 2
  MaxTexts = 1
  MaxLen = 2
  MaxDepth = 5
  MinLoad = 1
  Loads = TRUE
  Rich = FALSE
VIEW View
INVARIANTS RoundTrip InRange
PROPERTIES Grows CompileIdle
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
