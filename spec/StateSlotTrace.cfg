SPECIFICATION TraceSpec
INVARIANT HoldsState
CHECK_DEADLOCK FALSE
