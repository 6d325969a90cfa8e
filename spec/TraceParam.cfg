SPECIFICATION PSpec
CONSTANTS EstAt = 20 Cap = 2000000000
INVARIANTS Sane Later
CHECK_DEADLOCK FALSE
