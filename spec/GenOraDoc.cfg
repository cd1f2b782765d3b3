SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 1
 LEN = 20 EMIT = TRUE RICH = TRUE
CHECK_DEADLOCK FALSE
