INIT Init
NEXT Next
INVARIANT Finish
CHECK_DEADLOCK FALSE
VIEW View
