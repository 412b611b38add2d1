SPECIFICATION TraceSpec
CONSTANT DFLT = 100
CHECK_DEADLOCK FALSE
