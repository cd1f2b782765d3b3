SPECIFICATION Spec
CONSTANTS READERS = 3 TILES = 2 CHANS = 2 READS = 2 LOCK = TRUE EMIT = FALSE
INVARIANTS True Alone Kept
PROPERTIES Everyone
CHECK_DEADLOCK FALSE
