SPECIFICATION Spec
CONSTANTS MaxLen = 7 Gather = TRUE
INVARIANT IsMac
INVARIANT Distinct
CHECK_DEADLOCK FALSE
