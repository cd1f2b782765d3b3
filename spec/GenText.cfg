SPECIFICATION Spec
CONSTANTS CHARS = {"a", "lt", "amp", "quot", "bs", "nl", "e", "gt", "sp"} DEPTH = 3 LEN = 14 STEP = 1 EMIT = TRUE
CHECK_DEADLOCK FALSE
