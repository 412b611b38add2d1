SPECIFICATION TraceSpec
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
