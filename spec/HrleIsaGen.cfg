INIT GInit
NEXT GNext
INVARIANT Show
CHECK_DEADLOCK FALSE
