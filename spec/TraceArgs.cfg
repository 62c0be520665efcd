INIT TraceInit
NEXT TNext
CHECK_DEADLOCK FALSE
