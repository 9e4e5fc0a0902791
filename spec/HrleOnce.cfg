INIT Init
NEXT Next
CONSTANTS Threads = {t1, t2, t3}
CONSTANT NFlags = 3
INVARIANT SeesTheMachine
INVARIANT AnnouncedMeansComplete
INVARIANT OnlyTrueFlags
SYMMETRY Symm
CHECK_DEADLOCK FALSE
