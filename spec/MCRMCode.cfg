SPECIFICATION Spec
CONSTANTS MaxM = 4 MaxMsk = 8
INVARIANTS SameCode Sorted Shape MinDist SameRM Labelled SelfInverse
CHECK_DEADLOCK FALSE
