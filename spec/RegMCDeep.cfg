SPECIFICATION Spec
CONSTANTS
  MaxRegs = 3
  MaxDepth = 4
  Univ = {1, 1000, 1001}
  Rich = FALSE
VIEW View
INVARIANT Inv
PROPERTIES FrozenImmutable Isolated FrozenStays Grows NewIsFresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
