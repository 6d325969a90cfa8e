SPECIFICATION Spec
CONSTANTS Procs = {"a", "b"} C = 1 Snrs = {1, 2} MaxCount = 2 MaxFaults = 0 MaxDeaths = 0 Tries = 2
CONSTANTS Excl = FALSE Tmp = TRUE Release = TRUE
INVARIANTS Whole Mutex Free Once
PROPERTIES Abs
CHECK_DEADLOCK FALSE
