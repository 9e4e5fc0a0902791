INIT Init
NEXT Next
CONSTANT MaxLen = 20000
CHECK_DEADLOCK FALSE
