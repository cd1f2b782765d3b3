SPECIFICATION Spec
CONSTANTS M = 65535 B = 255 E = 257 SC = 16 HTOL = 16
CHECK_DEADLOCK FALSE
