SPECIFICATION Spec
CONSTANTS M = 7 B = 1 E = 7 SC = 1 HTOL = 2
INVARIANTS RangeOK FormulaRange Neutral TransparentTop TopOverNothing AlphaRule Between Dissolving DissolveEnds
CHECK_DEADLOCK FALSE
