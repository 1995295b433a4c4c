INIT Init
NEXT Next
CONSTANT KnownDeviations = {}
CHECK_DEADLOCK FALSE
