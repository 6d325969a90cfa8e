SPECIFICATION Spec
CONSTANTS Procs = {"p"} C = 2 Snrs = {1, 2, 3} MaxTrials = 5
INVARIANTS Exact
PROPERTIES Idem Grows
CHECK_DEADLOCK FALSE
