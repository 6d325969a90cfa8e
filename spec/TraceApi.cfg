SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2, 3, 4, 5} Cfgs = {1, 2, 3, 4, 5} Chans = {1, 2, 3, 4} Ins = {1, 2, 3, 4, 5} Depth = 0
CHECK_DEADLOCK FALSE
