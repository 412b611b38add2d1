SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Deep = FALSE
INVARIANTS Touched Case
CHECK_DEADLOCK FALSE
