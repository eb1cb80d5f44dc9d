SPECIFICATION Spec
VIEW View
POSTCONDITION Final
CHECK_DEADLOCK FALSE
