SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
