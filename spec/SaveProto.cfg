SPECIFICATION Spec
CONSTANTS Procs = {"a", "b"} C = 1 Snrs = {1, 2} MaxCount = 3 MaxFaults = 2 MaxDeaths = 1 Tries = 2
CONSTANTS Excl = TRUE Tmp = TRUE Release = TRUE
INVARIANTS Whole Mutex Free Once
PROPERTIES Abs
CHECK_DEADLOCK FALSE
