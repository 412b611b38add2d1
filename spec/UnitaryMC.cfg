SPECIFICATION USpec
CONSTANTS
  MinQubits = 2
  MaxQubits = 2
  NumBits = 0
  MaxLen = 2
  MinLen = 0
  Kinds = {"Hadamard", "CX", "RY"}
  Angles = {1}
  Conds = FALSE
  Rich = FALSE
  Preset = FALSE
  MaxEvents = 5
INVARIANT Orthonormal
ACTION_CONSTRAINT UEmit
CHECK_DEADLOCK FALSE
