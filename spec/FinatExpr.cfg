SPECIFICATION Spec
INVARIANT Laws Emit
CHECK_DEADLOCK FALSE
