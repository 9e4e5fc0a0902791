SPECIFICATION Spec
CONSTANTS K = 2
CONSTANT N = 2
INVARIANT Honest
PROPERTY Decides
CHECK_DEADLOCK FALSE
