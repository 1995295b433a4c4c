INIT Init
NEXT Next
CONSTANT Big = FALSE
INVARIANT Shift
INVARIANT Incr
INVARIANT High
INVARIANT NumOk
INVARIANT HexOk
INVARIANT RotOk
INVARIANT AddOk
INVARIANT XorOk
CHECK_DEADLOCK FALSE
