SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 3
  NumBits = 2
  MinLen = 0
  MaxLen = 8
  Kinds = {"Identity","X","Y","Z","Hadamard","S","T","RX","RY","RZ","Rotation","CX","CY","CZ","CHadamard","CRX","CRY","CRZ","CRotation","CS","CT","SWAP","CSWAP","CCX","CCZ","CCHadamard","CCRX","Barrier"}
  Angles = {0,1,2,3,4,5,6,7,8,9,10,11,12,13}
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
