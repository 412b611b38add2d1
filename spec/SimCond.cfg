SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 2
  NumBits = 2
  MinLen = 1
  MaxLen = 2
  Kinds = {"X","Hadamard","CX","Measurement","Barrier"}
  Angles = {8}
  Conds = TRUE
  Rich = FALSE
  Preset = TRUE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
