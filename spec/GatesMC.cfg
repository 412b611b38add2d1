SPECIFICATION Spec
CONSTANTS
  MaxObj = 3
  MaxDepth = 4
  Rich = FALSE
  Small = {"Hadamard", "RY", "CRX", "CSWAP"}
VIEW View
PROPERTIES Isolated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
