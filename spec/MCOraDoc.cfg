SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 1
 LEN = 7 EMIT = FALSE RICH = FALSE
INVARIANTS SameVerdict SameShape ConfigFirst ConfigPrefix PrefixRefused
CHECK_DEADLOCK FALSE
