SPECIFICATION AllErr
CONSTANTS EstAt = 1 Cap = 12 MaxTrn = 9 Controls = FALSE Long = FALSE
INVARIANTS Sane Left
PROPERTIES Ends
CHECK_DEADLOCK FALSE
