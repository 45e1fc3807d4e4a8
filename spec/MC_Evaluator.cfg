INIT Init
NEXT Next
VIEW View
INVARIANT HistoryOk
PROPERTY HeldProp ModeProp
CHECK_DEADLOCK FALSE
