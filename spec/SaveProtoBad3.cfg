SPECIFICATION Spec
CONSTANTS Procs = {"a", "b"} C = 1 Snrs = {1, 2} MaxCount = 2 MaxFaults = 1 MaxDeaths = 0 Tries = 2
CONSTANTS Excl = TRUE Tmp = TRUE Release = FALSE
INVARIANTS Whole Mutex Free Once
PROPERTIES Abs
CHECK_DEADLOCK FALSE
