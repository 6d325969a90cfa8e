SPECIFICATION Spec
CONSTANTS Procs = {"a", "b"} C = 1 Snrs = {1, 2} MaxCount = 2 MaxFaults = 0 MaxDeaths = 1 Tries = 2
CONSTANTS Excl = TRUE Tmp = FALSE Release = TRUE
INVARIANTS Whole Mutex Free Once
PROPERTIES Abs
CHECK_DEADLOCK FALSE
