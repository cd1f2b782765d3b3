------------------------------- MODULE MCBlend ------------------------------
(* Exhaustive check of the composition rules on a small scale: every mode,   *)
(* every pair of channel values and alphas.                                  *)
EXTENDS Blend, TLC

Modes == Separable \cup {"Normal", "Behind"}
VARIABLES m, x, y, a1, a2, done
vars == <<m, x, y, a1, a2, done>>

Init == /\ m \in Modes /\ x \in 0..M /\ y = 0 /\ a1 \in 0..M /\ a2 = 0 /\ done = FALSE
Next == /\ done = FALSE /\ done' = TRUE /\ y' \in 0..M /\ a2' \in 0..M /\ UNCHANGED <<m, x, a1>>
Spec == Init /\ [][Next]_vars

b == <<x, x, x, a1>>
t == <<y, y, y, a2>>
Res == IF m \in Separable THEN (IF a1 = 0 THEN Ex(0) ELSE Mix(a1, x, Min2(a1, a2), Formula(m, x, y)))
       ELSE IF m = "Behind" THEN Ex(x)
       ELSE IF a1 = 0 /\ a2 = 0 THEN Ex(0) ELSE Mix(a1, x, a2, Ex(y))
Exact(v) == Res = Ex(v)

RangeOK == 0 <= Lo(Res) /\ Lo(Res) <= Hi(Res) /\ Hi(Res) <= M
FormulaRange == (m \in Separable) => LET f == Formula(m, x, y) IN 0 <= Lo(f) /\ Lo(f) <= Hi(f) /\ Hi(f) <= M /\ Hi(f) - Lo(f) <= 4
Neutral ==
  (a1 = M /\ a2 = M) =>
    /\ (m = "Multiply" /\ y = M) => Exact(x)
    /\ (m = "Multiply" /\ y = 0) => Exact(0)
    /\ (m = "Screen" /\ y = 0) => Exact(x)
    /\ (m = "Screen" /\ y = M) => Exact(M)
    /\ (m \in {"Addition", "Subtract", "Difference", "LightenOnly", "Dodge"} /\ y = 0) => Exact(x)
    /\ (m \in {"Divide", "DarkenOnly", "Burn"} /\ y = M) => Exact(x)
    /\ (m = "Divide" /\ y = x /\ x # 0) => Exact(M)
    /\ (m = "Overlay" /\ x \in {0, M}) => Exact(x)
    /\ (m = "Difference" /\ x = y) => Exact(0)
    /\ (m = "Normal") => Exact(y)
TransparentTop == (a2 = 0 /\ a1 # 0) => Exact(x)
TopOverNothing == (m = "Normal" /\ a1 = 0 /\ a2 # 0) => Exact(y)
AlphaRule == (m = "Normal") =>
   /\ (a1 = M \/ a2 = M) => CoverLo(a1, a2) = M
   /\ (a2 = 0) => (CoverLo(a1, a2) = a1 /\ CoverHi(a1, a2) = a1)
   /\ CoverLo(a1, a2) >= Max2(a1, a2) - 1 /\ CoverHi(a1, a2) <= Min2(M, a1 + a2)
(* the mixed channel never leaves the range spanned by its two ingredients by more than rounding *)
Between == (m \in Separable /\ a1 # 0) =>
   LET f == Formula(m, x, y) IN Lo(Res) >= Min2(x, Lo(f)) - 2 /\ Hi(Res) <= Max2(x, Hi(f)) + 2
Dissolving == \A r \in {b, t, <<y, y, y, M>>}:
   DissolveOK(b, t, r) => (Same(r, b) \/ r = <<y, y, y, M>>)
DissolveEnds == /\ (a2 = 0) => DissolveOK(b, t, b) /\ (DissolveOK(b, t, <<y, y, y, M>>) => Same(b, <<y, y, y, M>>))
                /\ (a2 = M) => DissolveOK(b, t, t) /\ (DissolveOK(b, t, b) => Same(b, t))
=============================================================================
