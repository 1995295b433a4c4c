SPECIFICATION Spec
CONSTANTS H = 2 Reps = 3
INVARIANT Undone
INVARIANT ConstId
CHECK_DEADLOCK FALSE
