------------------------------ MODULE MCLColor ------------------------------
(* Every colour of a small cube, converted to HSV and HSL and back.          *)
EXTENDS Blend, TLC

CONSTANT RT              \* round-trip tolerance at this scale
VARIABLES c, n
Init == c \in {<<r, 0, 0, M>>: r \in 0..M} /\ n = 0
Next == n = 0 /\ n' = 1 /\ \E g, bl \in 0..M: c' = <<c[1], g, bl, M>>
Spec == Init /\ [][Next]_<<c, n>>

Back(h) == FromHSV(h[1], h[2], h[3])
BackL(h) == FromHSL(h[1], h[2], h[3])
RoundTripV == NearRGB(Back(ToHSV(c)), c, RT)
RoundTripL == NearRGB(BackL(ToHSL(c)), c, RT)
Ranges == LET v == ToHSV(c) s == ToHSL(c)
  IN \A i \in 1..3: 0 <= v[i] /\ v[i] <= M /\ 0 <= s[i] /\ s[i] <= M
GreyZero == Grey(c) => ToHSV(c)[1] = 0 /\ ToHSV(c)[2] = 0 /\ ToHSL(c)[1] = 0 /\ ToHSL(c)[2] = 0
HueEnds == FromHSV(0, c[1], c[2]) = FromHSV(M, c[1], c[2]) /\ FromHSL(0, c[1], c[2]) = FromHSL(M, c[1], c[2])
(* any hsv/hsl triple gives channels in range with the stated maximum / lightness *)
Triples == LET q == FromHSV(c[1], c[2], c[3]) p == FromHSL(c[1], c[2], c[3])
  IN /\ MaxC(q) = c[3] /\ \A i \in 1..3: 0 <= q[i] /\ q[i] <= M
     /\ Near(MaxC(p) + MinC(p), 2 * c[3], 2) /\ \A i \in 1..3: 0 <= p[i] /\ p[i] <= M
Components ==
  /\ ComponentTarget("Hue", c, <<0, 0, 0, M>>) = <<c[1], c[2], c[3]>>
  /\ NearRGB(ComponentTarget("Value", c, c), c, RT)
  /\ NearRGB(ComponentTarget("Color", c, c), c, RT)
=============================================================================
