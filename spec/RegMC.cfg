SPECIFICATION Spec
CONSTANTS
  MaxRegs = 2
  MaxDepth = 3
  Univ = {1, 2, 1000, 1001}
  Rich = FALSE
VIEW View
INVARIANT Inv
PROPERTIES FrozenImmutable Isolated FrozenStays Grows NewIsFresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
