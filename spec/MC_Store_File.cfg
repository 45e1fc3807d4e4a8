INIT Init
NEXT Next
VIEW View
CONSTANT Calls <- CallsFile
CONSTANT Starts <- StartsFam
CONSTANT MaxLen <- MaxLenEnv
INVARIANT StoreOk
PROPERTY FrameProp EdgeFrameProp ClearProp LoadProp
CHECK_DEADLOCK FALSE
