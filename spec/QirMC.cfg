SPECIFICATION Spec
CONSTANTS
  MaxCircs = 2
  MaxTexts = 2
  MaxLen = 3
  MaxDepth = 4
  MinLoad = 1
  Loads = TRUE
  Rich = FALSE
VIEW View
INVARIANTS RoundTrip InRange
PROPERTIES Grows CompileIdle
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
