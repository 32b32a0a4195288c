INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
