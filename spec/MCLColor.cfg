SPECIFICATION Spec
CONSTANTS M = 31 B = 31 E = 1 SC = 1 HTOL = 2 RT = 7
INVARIANTS RoundTripV RoundTripL Ranges GreyZero HueEnds Triples Components
CHECK_DEADLOCK FALSE
