SPECIFICATION Spec
INVARIANT Dims Embedded Emit
CHECK_DEADLOCK FALSE
