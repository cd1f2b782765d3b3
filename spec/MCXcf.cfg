SPECIFICATION Spec
CONSTANTS M = 65535 B = 255 E = 257 SC = 16 HTOL = 16 RS = 127 TILE = 2
VERS = {3, 11} BASES = {1} SIZES = {101, 302} PROPSETS = {"none", "dim"} NLAYERS = 2 NPROPS = 0 MASKS = {TRUE, FALSE} PLACES = {1, 2} COMPS = {0, 1} FAULTY = FALSE STEP = 40 EMIT = FALSE LIES = {}
CONSTANT MostTileData <- SmallTileData
INVARIANTS Faithful CutRefused Formed Caught
CHECK_DEADLOCK FALSE
