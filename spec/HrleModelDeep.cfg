INIT Init
NEXT Next
CONSTANTS L = 7
CONSTANT MaxSize = 3
INVARIANT Lockstep
INVARIANT Restored
INVARIANT CacheSize
INVARIANT Size
CHECK_DEADLOCK FALSE
