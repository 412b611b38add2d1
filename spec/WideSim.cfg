SPECIFICATION WideOnce
CONSTANTS
  ApplyMat <- WApplyMat
  ApplySwap <- WApplySwap
  Zero <- WZero
  Basis <- WBasis
  Project <- WProject
  IsZero <- WIsZero
  Norm2 <- WNorm2
  Reversed <- WReversed
  Places <- WPlaces
  Widths <- WWidths
  BitSets <- WBitSets
  CondsFor <- WCondsFor
  MinQubits = 4
  MaxQubits = 12
  NumBits = 5
  MinLen = 0
  MaxLen = 24
  Kinds = {"Identity","X","Y","Z","Hadamard","S","T","RX","RY","RZ","Rotation","CX","CY","CZ","CHadamard","CRX","CRY","CRZ","CRotation","CS","CT","CCX","CCZ","CCHadamard","CCRX","SWAP","CSWAP","Barrier","Measurement"}
  Angles <- MoreAngles
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
  MaxEvents = 1
  MaxMixing = 5
INVARIANT Inv
ACTION_CONSTRAINT WEmitGo
CHECK_DEADLOCK FALSE
