INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsB
CONSTANT Starts <- StartsB
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
