SPECIFICATION Spec
CONSTANTS D = 3 PROCS = 2 OFFS = {0, 2, 5} LENS = {0, 2} CALLS = 3 FAULTS = 1 EMIT = FALSE START = 2
INVARIANTS Answers OneHolder Freed
PROPERTIES EveryCallReturns
