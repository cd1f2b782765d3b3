SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0 KIND = "graya" DEPTH = 14 EMIT = TRUE
CHECK_DEADLOCK FALSE
