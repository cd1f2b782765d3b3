SPECIFICATION Spec
CONSTANTS RS = 127 N = 4096 VALS = {0, 77, 255} EMIT = TRUE
CHECK_DEADLOCK FALSE
