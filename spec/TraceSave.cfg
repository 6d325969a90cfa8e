SPECIFICATION TSpec
CONSTANTS Procs = {0, 1, 2, 3, 4, 5} C = 6
CHECK_DEADLOCK FALSE
