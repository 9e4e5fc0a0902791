INIT Init
NEXT Next
INVARIANT Show
INVARIANT Sane
CHECK_DEADLOCK FALSE
