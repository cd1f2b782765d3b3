SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 0
 WIDE = FALSE MODES = {"Normal", "Multiply", "Behind", "Dissolve"}
 CONTS = {"kw", "tr", "mk", "pl"} STEPS = 2 EMIT = FALSE
INVARIANTS RelationAcceptsMeaning NothingOutside HiddenFree GroupOfAll CropKeepsPicture CropTwice CropBounds OpaqueStays BoundsAround ModelStays
CHECK_DEADLOCK FALSE
