SPECIFICATION Spec
INVARIANTS NormIdem ReconLaw CompLaw DegreeLaw Emit
CHECK_DEADLOCK FALSE
