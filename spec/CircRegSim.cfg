SPECIFICATION Spec
CONSTANTS
  DFLT = 100
  MaxCircs = 3
  MaxDepth = 25
  Rich = TRUE
  PoolSize = 4
  MaxItems = 60
INVARIANTS NoDuplicates LabelsDiffer
PROPERTIES Separate Stay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
