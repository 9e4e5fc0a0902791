INIT Init
NEXT Next
INVARIANT WalkInv
INVARIANT Finish
CHECK_DEADLOCK FALSE
VIEW View
