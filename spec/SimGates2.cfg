SPECIFICATION Spec
CONSTANTS
  MinQubits = 2
  MaxQubits = 2
  NumBits = 0
  MinLen = 2
  MaxLen = 2
  Kinds = {"Identity","X","Y","Z","Hadamard","S","T","RX","RY","RZ","Rotation","CX","CY","CZ","CHadamard","CRX","CRY","CRZ","CRotation","CS","CT","SWAP","CSWAP","CCX","CCZ","CCHadamard","CCRX","Barrier"}
  Angles = {1,8}
  Conds = FALSE
  Rich = FALSE
  Preset = FALSE
INVARIANT Inv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured ProgramKept
ACTION_CONSTRAINT EmitGo
CHECK_DEADLOCK FALSE
