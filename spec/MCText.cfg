SPECIFICATION Spec
CONSTANTS CHARS = {"a", "amp", "bs"} DEPTH = 2 LEN = 3 STEP = 20 EMIT = FALSE
INVARIANTS Understood EndsAtZero CutRefused
CHECK_DEADLOCK FALSE
