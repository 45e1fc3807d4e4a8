INIT Init
NEXT Next
CONSTANT N <- NEnv
CONSTANT M <- MEnv
INVARIANT Ok
CHECK_DEADLOCK FALSE
