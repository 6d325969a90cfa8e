SPECIFICATION Spec
INVARIANT ListBound
CHECK_DEADLOCK FALSE
