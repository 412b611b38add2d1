SPECIFICATION TraceSpec
INVARIANT TraceInv
PROPERTIES NormKept Repeatable BlockedIdle OnlyMeasured
CHECK_DEADLOCK FALSE
