SPECIFICATION Spec
CONSTANTS
  DFLT = 100
  MaxCircs = 2
  MaxDepth = 5
  Rich = FALSE
  PoolSize = 1
  MaxItems = 4
VIEW View
INVARIANTS NoDuplicates LabelsDiffer
PROPERTIES Separate Stay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
