SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 2
  NumBits = 2
  MinLen = 1
  MaxLen = 3
  Kinds = {"X","Hadamard","CX","RY","Measurement"}
  Angles = {8}
  Conds = FALSE
  Rich = FALSE
  Preset = FALSE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
