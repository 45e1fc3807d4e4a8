INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsFam
CONSTANT Starts <- StartsFam
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
