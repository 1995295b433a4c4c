SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxChunk = 3 Shape = "cfb2"
INVARIANT OneWay
INVARIANT IsClosed
INVARIANT SameLen
INVARIANT Early
INVARIANT RoundTrip
INVARIANT Refuses
CHECK_DEADLOCK FALSE
