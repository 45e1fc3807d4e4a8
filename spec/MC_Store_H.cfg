INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsH
CONSTANT Starts <- StartsH
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
