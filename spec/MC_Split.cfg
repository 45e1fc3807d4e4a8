INIT Init
NEXT Next
CONSTANT N <- NEnv
INVARIANT Ok
CHECK_DEADLOCK FALSE
