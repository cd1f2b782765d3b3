SPECIFICATION Spec
CONSTANTS M = 1 B = 1 E = 1 SC = 1 HTOL = 1
 STEPS = 5 EMIT = TRUE WIDE = TRUE
  WRAPM = {"Normal", "Plus"} MODES = {"Normal", "Plus", "Value", "Multiply", "DestinationAtop", "Screen"}
 CONTS = {"wt", "rkw", "mk", "tx"}
CHECK_DEADLOCK FALSE
