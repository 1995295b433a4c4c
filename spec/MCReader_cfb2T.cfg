SPECIFICATION Spec
CONSTANTS MaxLen = 9 Kind = "cfb2" Gather = TRUE Faults = 2
INVARIANT Prefix
INVARIANT Refused
INVARIANT Ended
PROPERTY Allowed
CHECK_DEADLOCK FALSE
