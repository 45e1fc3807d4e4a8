SPECIFICATION Spec
INVARIANT Ok
PROPERTY Ends
CHECK_DEADLOCK FALSE
