SPECIFICATION Spec
CONSTANTS RS = 2 N = 4 VALS = {0, 2, 3} EMIT = FALSE
INVARIANTS Bounded Reads Self Exact
CHECK_DEADLOCK FALSE
