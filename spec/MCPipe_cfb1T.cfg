SPECIFICATION Spec
CONSTANTS MaxLen = 7 MaxChunk = 3 Shape = "cfb1"
INVARIANT OneWay
INVARIANT IsClosed
INVARIANT SameLen
INVARIANT Early
INVARIANT RoundTrip
INVARIANT Refuses
CHECK_DEADLOCK FALSE
