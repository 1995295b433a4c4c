SPECIFICATION Fair
CONSTANTS Threads = {1, 2, 3}  Words = 2  Calls = 2  Faults = 2  Locked = TRUE  Early = FALSE  Depth = 0  Trail = FALSE
INVARIANT Safe
PROPERTY Answered
CHECK_DEADLOCK FALSE
