INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsG
CONSTANT Starts <- StartsG
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
