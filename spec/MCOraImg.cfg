SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 1
 STEPS = 3 EMIT = FALSE WIDE = FALSE
 MODES = {"Value"} WRAPM = {"Plus"}
 CONTS = {"rkw"}
INVARIANTS RoundTrip Idempotent SourcesOnce SamePicture ClipKeepsPicture SaysItself
CHECK_DEADLOCK FALSE
