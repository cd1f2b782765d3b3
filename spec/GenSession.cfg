SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0 RS = 127 TILE = 64
 STEPS = 7 MODES = {"Normal", "Multiply", "Screen", "Difference"} CONTS = {"kw", "tr", "mk", "mo"} RECTS = {"l", "m", "r", "o"}
 GROUPS = {"one", "two", "deep", "mask", "thin"} OFFS = {0, 1, 2} EMIT = TRUE
CHECK_DEADLOCK FALSE
