SPECIFICATION Spec
CONSTANTS Slots = {0, 1} Cfgs = {1, 2} Chans = {1, 2} Ins = {1} Depth = 6
INVARIANTS TypeOK Own
CHECK_DEADLOCK FALSE
