SPECIFICATION Spec
CONSTANTS MaxWords = 5 MaxHandles = 6 KnownDeviations = {}
INVARIANT Walks
INVARIANT Values
PROPERTY Frozen
CHECK_DEADLOCK FALSE
