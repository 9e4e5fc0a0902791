INIT TInit
NEXT TNext
INVARIANT TInv
INVARIANT Finish
CHECK_DEADLOCK FALSE
VIEW View
