SPECIFICATION DSpec
CONSTANTS
  MinQubits = 1
  MaxQubits = 2
  NumBits = 1
  MinLen = 1
  MaxLen = 2
  Kinds = {"X","Y","Hadamard","S","T","RX","RY","RZ","CX","CY","CHadamard","CRY","SWAP","Barrier"}
  Angles = {1, 8}
  Conds = TRUE
  Rich = FALSE
  Preset = TRUE
INVARIANTS OuterProduct
CHECK_DEADLOCK FALSE
