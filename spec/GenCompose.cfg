SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0
 WIDE = TRUE MODES = {"Normal", "Dissolve", "Behind", "Multiply", "Screen", "Difference", "Addition", "Subtract", "Dodge", "Burn", "HardLight", "Divide"}
 CONTS = {"wt", "kw", "rk", "tr", "mk", "mo", "pl", "pa"} STEPS = 6 EMIT = TRUE
CHECK_DEADLOCK FALSE
