SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 3
  NumBits = 4
  MinLen = 0
  MaxLen = 8
  Kinds = {"Measurement","X","Hadamard","RY","CX","CHadamard","T","SWAP","Barrier"}
  Angles = {1,3,8,9,12,13}
  Conds = FALSE
  Rich = TRUE
  Preset = FALSE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
