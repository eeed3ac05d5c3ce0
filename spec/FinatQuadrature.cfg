SPECIFICATION Spec
INVARIANT Structure
INVARIANT Emit
CHECK_DEADLOCK FALSE
