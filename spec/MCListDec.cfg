SPECIFICATION Spec
CONSTANTS Kind = "rm0" M = 2 R = 1
CONSTANT Vals <- V3
INVARIANTS PathLikelihood ListSize Final Four
CHECK_DEADLOCK FALSE
