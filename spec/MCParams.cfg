SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS ReadBack Means Cut
CHECK_DEADLOCK FALSE
