INIT Init
NEXT Next
CONSTANTS L = 5
CONSTANT MaxSize = 2
INVARIANT Lockstep
INVARIANT Restored
INVARIANT CacheSize
INVARIANT Size
CHECK_DEADLOCK FALSE
