SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 3
  NumBits = 3
  MinLen = 0
  MaxLen = 8
  Kinds = {"Measurement","X","Hadamard","RY","CX","SWAP","CSWAP","CCX","Barrier","CRX","Rotation"}
  Angles = {1,3,8,9,12,13}
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
