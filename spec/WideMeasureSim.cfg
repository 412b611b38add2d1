SPECIFICATION WideOnce
CONSTANTS
  ApplyMat <- WApplyMat
  ApplySwap <- WApplySwap
  Zero <- WZero
  Basis <- WBasis
  Project <- WProject
  IsZero <- WIsZero
  Norm2 <- WNorm2
  Reversed <- WReversed
  Places <- WPlaces
  Widths <- WWidths
  BitSets <- WBitSets
  CondsFor <- WCondsFor
  MinQubits = 4
  MaxQubits = 12
  NumBits = 12
  MinLen = 0
  MaxLen = 24
  Kinds = {"Measurement","X","Hadamard","RY","CX","Barrier","T","SWAP","CCX","CSWAP","CRY","CCZ"}
  Angles <- MoreAngles
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
  MaxEvents = 1
  MaxMixing = 5
INVARIANT Inv
ACTION_CONSTRAINT WEmitGo
CHECK_DEADLOCK FALSE
