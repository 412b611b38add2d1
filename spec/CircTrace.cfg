SPECIFICATION TraceSpec
INVARIANTS WellFormed OneActive Unset
CHECK_DEADLOCK FALSE
