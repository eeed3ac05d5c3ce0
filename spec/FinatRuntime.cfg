SPECIFICATION Spec
INVARIANT NoSharing
INVARIANT Agree
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
