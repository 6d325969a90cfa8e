SPECIFICATION Spec
CONSTANTS EstAt = 1 Cap = 12 MaxTrn = 5 Controls = TRUE Long = FALSE
INVARIANTS Sane Left AtLeast DoneOk Later
PROPERTIES NoExtra Grows CurMono
CHECK_DEADLOCK FALSE
