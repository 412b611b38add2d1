SPECIFICATION WideSpec
CONSTANTS
  ApplyMat <- WApplyMat
  ApplySwap <- WApplySwap
  Zero <- WZero
  Basis <- WBasis
  Project <- WProject
  IsZero <- WIsZero
  Norm2 <- WNorm2
  Reversed <- WReversed
  Places <- WPlaces
  Widths <- WWidths
  BitSets <- WBitSets
  CondsFor <- WCondsFor
  MinQubits = 4
  MaxQubits = 5
  NumBits = 5
  MinLen = 0
  MaxLen = 16
  Kinds = {"X","Hadamard","RY","CX","Barrier","T","SWAP","CCX","CSWAP","CRY","CCZ"}
  Angles <- AllAngles
  Conds = TRUE
  Rich = TRUE
  Preset = TRUE
  MaxEvents = 12
  MaxMixing = 2
INVARIANT Inv
ACTION_CONSTRAINT REmit
CHECK_DEADLOCK FALSE
