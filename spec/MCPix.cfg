SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0 KIND = "graya" DEPTH = 4 EMIT = FALSE
INVARIANTS Refines ViewsAgree WindowsInside OffsetsInside OpaqueOwn
CHECK_DEADLOCK FALSE
