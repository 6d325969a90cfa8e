SPECIFICATION Fair
CONSTANTS Procs = {"a", "b"} C = 1 Snrs = {1, 2} MaxCount = 2 MaxFaults = 1 MaxDeaths = 1 Tries = 2
CONSTANTS Excl = TRUE Tmp = TRUE Release = TRUE
PROPERTIES Returns
CHECK_DEADLOCK FALSE
