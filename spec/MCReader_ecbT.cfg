SPECIFICATION Spec
CONSTANTS MaxLen = 9 Kind = "ecb" Gather = TRUE Faults = 2
INVARIANT Prefix
INVARIANT Refused
INVARIANT Ended
PROPERTY Allowed
CHECK_DEADLOCK FALSE
