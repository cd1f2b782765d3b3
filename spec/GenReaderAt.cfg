SPECIFICATION Spec
CONSTANTS D = 7 PROCS = 3 OFFS = {0, 1, 3, 6, 7, 9} LENS = {0, 1, 3, 7, 8} CALLS = 6 FAULTS = 2 EMIT = TRUE START = 4
CHECK_DEADLOCK FALSE
