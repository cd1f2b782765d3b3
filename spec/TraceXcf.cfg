SPECIFICATION Spec
CONSTANTS M = 65535 B = 255 E = 257 SC = 16 HTOL = 16 RS = 127 TILE = 64
CHECK_DEADLOCK FALSE
