SPECIFICATION Spec
CONSTANTS MaxLen = 7 MaxChunk = 3 Shape = "ecb"
INVARIANT OneWay
INVARIANT IsClosed
INVARIANT SameLen
INVARIANT Early
INVARIANT RoundTrip
INVARIANT Refuses
CHECK_DEADLOCK FALSE
