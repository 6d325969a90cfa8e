SPECIFICATION Spec
CONSTANTS MaxTrn = 6
INVARIANTS Same Follows
CHECK_DEADLOCK FALSE
