SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0 RS = 127 TILE = 64
 STEPS = 3 MODES = {"Normal", "Multiply"} CONTS = {"kw", "mk"} RECTS = {"l", "m", "r"}
 GROUPS = {"one", "deep", "mask"} OFFS = {1} EMIT = FALSE
INVARIANTS Shows NamesStay PlacesStay SaveIdem OwnPixels
PROPERTIES OnlyStores
CHECK_DEADLOCK FALSE
