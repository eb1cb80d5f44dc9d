CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANT Adjoint
CHECK_DEADLOCK FALSE
