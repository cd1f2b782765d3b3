SPECIFICATION Spec
CONSTANTS N = 5 BUF = 2 PATCHES = TRUE
INVARIANTS OkMeansAll FailureReported NoFailureNoError
PROPERTIES NoWriteAfterFailure Returns
CHECK_DEADLOCK FALSE
