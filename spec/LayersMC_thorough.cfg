CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANT Adjoint
CHECK_DEADLOCK FALSE
