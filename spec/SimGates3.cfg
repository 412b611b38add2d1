SPECIFICATION Spec
CONSTANTS
  MinQubits = 2
  MaxQubits = 3
  NumBits = 0
  MinLen = 2
  MaxLen = 2
  Kinds = {"X","Hadamard","T","RY","CX","CHadamard","CRX","SWAP","CSWAP","CCX","CCRX","Barrier"}
  Angles = {8}
  Conds = FALSE
  Rich = FALSE
  Preset = FALSE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
