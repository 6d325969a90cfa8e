SPECIFICATION TSpec
CONSTANTS EstAt = 20 Cap = 2000000000
INVARIANTS Sane
CHECK_DEADLOCK FALSE
