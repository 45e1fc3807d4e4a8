INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsD
CONSTANT Starts <- StartsD
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
