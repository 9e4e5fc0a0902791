INIT Init
NEXT Next
INVARIANT OnlyUsable
INVARIANT NothingLost
CHECK_DEADLOCK FALSE
