INIT Init
NEXT Next
CONSTANT N = 64
INVARIANT Same
INVARIANT Runs
INVARIANT Find
INVARIANT Rank
INVARIANT Mtf
INVARIANT Delta
CHECK_DEADLOCK FALSE
