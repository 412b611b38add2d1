SPECIFICATION TraceSpec
INVARIANT IdOk
CHECK_DEADLOCK FALSE
