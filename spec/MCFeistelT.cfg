SPECIFICATION Spec
CONSTANTS H = 3 Reps = 3
INVARIANT Undone
INVARIANT ConstId
CHECK_DEADLOCK FALSE
