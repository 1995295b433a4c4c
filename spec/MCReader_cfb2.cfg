SPECIFICATION Spec
CONSTANTS MaxLen = 5 Kind = "cfb2" Gather = TRUE Faults = 1
INVARIANT Prefix
INVARIANT Refused
INVARIANT Ended
PROPERTY Allowed
CHECK_DEADLOCK FALSE
