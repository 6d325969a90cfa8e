SPECIFICATION VSpec
CHECK_DEADLOCK FALSE
