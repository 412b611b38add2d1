SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Deep = TRUE
INVARIANTS Touched Case
CHECK_DEADLOCK FALSE
