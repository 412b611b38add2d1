SPECIFICATION RSpec
CONSTANTS
  MinQubits = 1
  MaxQubits = 3
  NumBits = 2
  MinLen = 0
  MaxLen = 5
  Kinds = {"Measurement","X","Hadamard","RY","CX","Barrier","T","SWAP"}
  Angles = {1,8}
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
  MaxEvents = 14
INVARIANT Inv
ACTION_CONSTRAINT REmit
CHECK_DEADLOCK FALSE
