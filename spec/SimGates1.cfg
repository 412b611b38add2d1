SPECIFICATION Spec
CONSTANTS
  MinQubits = 1
  MaxQubits = 3
  NumBits = 0
  MinLen = 0
  MaxLen = 1
  Kinds = {"Identity","X","Y","Z","Hadamard","S","T","RX","RY","RZ","Rotation","CX","CY","CZ","CHadamard","CRX","CRY","CRZ","CRotation","CS","CT","SWAP","CSWAP","CCX","CCZ","CCHadamard","CCRX","Barrier"}
  Angles = {0,1,2,3,4,5,6,7,8,9,10,11,12,13}
  Conds = FALSE
  Rich = FALSE
  Preset = FALSE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
