SPECIFICATION TraceSpec
CONSTANTS
  ApplyMat <- WApplyMat
  ApplySwap <- WApplySwap
  Zero <- WZero
  Basis <- WBasis
  Project <- WProject
  IsZero <- WIsZero
  Norm2 <- WNorm2
  Reversed <- WReversed
  Rho <- WRho
INVARIANT TraceInv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured
CHECK_DEADLOCK FALSE
