INIT Init
NEXT Next
INVARIANT Held
VIEW View
CHECK_DEADLOCK FALSE
