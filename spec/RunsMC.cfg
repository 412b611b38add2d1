SPECIFICATION RSpec
CONSTANTS
  MinQubits = 1
  MaxQubits = 2
  NumBits = 1
  MinLen = 1
  MaxLen = 1
  Kinds = {"Hadamard","Measurement"}
  Angles = {8}
  Conds = TRUE
  Rich = FALSE
  Preset = TRUE
  MaxEvents = 2
INVARIANT Inv
ACTION_CONSTRAINT REmit
CHECK_DEADLOCK FALSE
