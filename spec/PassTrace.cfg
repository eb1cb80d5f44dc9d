SPECIFICATION CSpec
VIEW View
POSTCONDITION Final
CHECK_DEADLOCK FALSE
