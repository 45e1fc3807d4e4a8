INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY Once Lazy
CHECK_DEADLOCK FALSE
