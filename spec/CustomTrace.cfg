SPECIFICATION TraceSpec
CONSTANT Free = 200
CHECK_DEADLOCK FALSE
