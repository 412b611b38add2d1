SPECIFICATION Spec
CONSTANTS
  MaxRegs = 4
  MaxDepth = 22
  Univ = {1, 2, 3, 4, 1000, 1001, 1002}
  Rich = TRUE
INVARIANT Inv
PROPERTIES FrozenImmutable Isolated FrozenStays Grows NewIsFresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
