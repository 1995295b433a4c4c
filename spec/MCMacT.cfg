SPECIFICATION Spec
CONSTANTS MaxLen = 11 Gather = TRUE
INVARIANT IsMac
INVARIANT Distinct
CHECK_DEADLOCK FALSE
