SPECIFICATION TraceSpec
INVARIANT ParOk
CHECK_DEADLOCK FALSE
