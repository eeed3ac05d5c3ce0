SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
PROPERTY Persistent
CHECK_DEADLOCK FALSE
