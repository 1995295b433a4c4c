SPECIFICATION Spec
CONSTANTS MaxWords = 7 MaxHandles = 8 KnownDeviations = {}
INVARIANT Walks
INVARIANT Values
PROPERTY Frozen
CHECK_DEADLOCK FALSE
