SPECIFICATION Spec
CONSTANTS MaxG = 3 MaxX = 8
INVARIANTS IsRemainder Exactly
CHECK_DEADLOCK FALSE
