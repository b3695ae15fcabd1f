SPECIFICATION TraceSpec
INVARIANT Ordered
CHECK_DEADLOCK FALSE
