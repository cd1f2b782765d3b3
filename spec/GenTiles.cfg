SPECIFICATION Spec
CONSTANTS READERS = 4 TILES = 6 CHANS = 1 READS = 6 LOCK = TRUE EMIT = TRUE
CHECK_DEADLOCK FALSE
