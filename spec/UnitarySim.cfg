SPECIFICATION USpec
CONSTANTS
  MinQubits = 1
  MaxQubits = 4
  NumBits = 0
  MaxLen = 7
  MinLen = 0
  Kinds = {"Identity", "X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "Rotation", "CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation", "CS", "CT", "CCZ", "CCHadamard", "CCRX"}
  Angles = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
  Conds = FALSE
  Rich = TRUE
  Preset = FALSE
  MaxEvents = 14
ACTION_CONSTRAINT UEmit
CHECK_DEADLOCK FALSE
