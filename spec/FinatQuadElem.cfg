SPECIFICATION Spec
INVARIANT Laws IdLaw Emit
CHECK_DEADLOCK FALSE
