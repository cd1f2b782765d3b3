SPECIFICATION Spec
CONSTANTS M = 65535 B = 255 E = 257 SC = 16 HTOL = 16 RS = 127 TILE = 64
VERS = {0, 1, 3, 4, 10, 11, 13} BASES = {0, 1, 2} SIZES = {101, 302, 203, 6502, 166} PROPSETS = {"none", "dim", "hid", "float", "twice"} NLAYERS = 6 NPROPS = 2 MASKS = {TRUE, FALSE} PLACES = {1, 2, 3} COMPS = {0, 1} FAULTY = TRUE STEP = 40 EMIT = TRUE LIES = {}
CHECK_DEADLOCK FALSE
