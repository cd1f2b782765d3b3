------------------------------- MODULE LColor ------------------------------
(* Colours, their types and the HSV/HSL hexcone on the scale 0..M.  8-bit    *)
(* components 0..B stand for multiples of E = M/B.                           *)
EXTENDS Num

CONSTANTS B, E, SC, HTOL  \* HTOL: tolerance of HSV/HSL conversions, in steps

Grey(c) == c[1] = c[2] /\ c[2] = c[3]
MaxC(c) == Max3(c[1], c[2], c[3])
MinC(c) == Min3(c[1], c[2], c[3])

(* hue times six, 0..6M *)
Hue6(c) ==
  LET mx == MaxC(c) d == mx - MinC(c) r == c[1] g == c[2] b == c[3]
  IN IF d = 0 THEN 0
     ELSE IF mx = r THEN (IF g >= b THEN MulDiv(M, g - b, d) ELSE 6 * M - MulDiv(M, b - g, d))
     ELSE IF mx = g THEN (IF b >= r THEN 2 * M + MulDiv(M, b - r, d) ELSE 2 * M - MulDiv(M, r - b, d))
     ELSE (IF r >= g THEN 4 * M + MulDiv(M, r - g, d) ELSE 4 * M - MulDiv(M, g - r, d))

ToHSV(c) ==
  LET mx == MaxC(c) d == mx - MinC(c)
  IN <<Hue6(c) \div 6, IF d = 0 THEN 0 ELSE MulDiv(M, d, mx), mx, c[4]>>

ToHSL(c) ==
  LET mx == MaxC(c) mn == MinC(c) d == mx - mn s == mx + mn
  IN <<Hue6(c) \div 6,
       IF d = 0 THEN 0 ELSE MulDiv(M, d, IF s <= M THEN s ELSE 2 * M - s),
       s \div 2, c[4]>>

(* chroma ch on the hexcone at hue h (0..M, M is the same as 0), lifted by m *)
Hexcone(h, ch, m) ==
  LET h6 == (6 * h) % (6 * M)
      k == h6 \div M
      t == h6 % (2 * M)
      x == MulDiv(IF t > M THEN 2 * M - t ELSE t, ch, M)
      p == CASE k = 0 -> <<ch, x, 0>>
             [] k = 1 -> <<x, ch, 0>>
             [] k = 2 -> <<0, ch, x>>
             [] k = 3 -> <<0, x, ch>>
             [] k = 4 -> <<x, 0, ch>>
             [] k = 5 -> <<ch, 0, x>>
  IN <<Clamp(p[1] + m), Clamp(p[2] + m), Clamp(p[3] + m)>>

FromHSV(h, s, v) == LET ch == MulDiv(v, s, M) IN Hexcone(h, ch, v - ch)

FromHSL(h, s, l) ==
  LET w == IF 2 * l <= M THEN 2 * l ELSE 2 * M - 2 * l
      ch == MulDiv(w, s, M)
  IN Hexcone(h, ch, l - (ch \div 2))

NearRGB(c, d, t) == \A i \in 1..3: Near(c[i], d[i], t)
HueNear(h, k) == Near(h, k, 1) \/ Near(h, k, M - 1) \/ Near(h, k, M)

HSVOK(c, h) ==
  LET e == ToHSV(c)
  IN /\ h[4] = c[4] /\ h[3] = e[3] /\ Near(h[2], e[2], 1)
     /\ IF Grey(c) THEN h[1] = 0 /\ h[2] = 0 ELSE HueNear(h[1], e[1])
HSLOK(c, h) ==
  LET e == ToHSL(c)
  IN /\ h[4] = c[4] /\ Near(h[3], e[3], 1) /\ Near(h[2], e[2], 1)
     /\ IF Grey(c) THEN h[1] = 0 /\ h[2] = 0 ELSE HueNear(h[1], e[1])

(* ---- colour types: c.k names the type, c.v lists its fields ---- *)

(* non-premultiplied value; hsva/hsla within HTOL *)
Non(c) ==
  LET v == c.v
  IN CASE c.k = "nrgba" -> <<v[1] * E, v[2] * E, v[3] * E, v[4] * E>>
       [] c.k = "nrgba64" -> v
       [] c.k = "lrgb" -> <<v[1] * E, v[2] * E, v[3] * E, M>>
       [] c.k = "lgraya" -> <<v[1] * E, v[1] * E, v[1] * E, v[2] * E>>
       [] c.k = "gray" -> <<v[1] * E, v[1] * E, v[1] * E, M>>
       [] c.k = "gray16" -> <<v[1], v[1], v[1], M>>
       [] c.k = "alpha" -> <<M, M, M, v[1] * E>>
       [] c.k = "alpha16" -> <<M, M, M, v[1]>>
       [] c.k = "rgba" -> IF v[4] = 0 THEN <<0, 0, 0, 0>>
                          ELSE [i \in 1..4 |-> IF i = 4 THEN v[4] * E ELSE MulDiv(v[i] * E, M, v[4] * E)]
       [] c.k = "rgba64" -> IF v[4] = 0 THEN <<0, 0, 0, 0>>
                          ELSE [i \in 1..4 |-> IF i = 4 THEN v[4] ELSE MulDiv(v[i], M, v[4])]
       [] c.k = "hsva" -> LET q == FromHSV(v[1], v[2], v[3]) IN <<q[1], q[2], q[3], v[4]>>
       [] c.k = "hsla" -> LET q == FromHSL(v[1], v[2], v[3]) IN <<q[1], q[2], q[3], v[4]>>

Inexact(c) == IF c.k \in {"hsva", "hsla"} THEN HTOL ELSE IF c.k \in {"rgba", "rgba64"} THEN 1 ELSE 0

(* the non-premultiplied projection n agrees with the type's meaning *)
NonOK(c, n) ==
  LET e == Non(c)
  IN /\ n[4] = e[4]
     /\ n[4] # 0 => NearRGB(n, e, Inexact(c))

(* the premultiplied projection p agrees with the non-premultiplied form n:  *)
(* none above alpha, each channel n*alpha to within one step                 *)
PreOK(n, p) ==
  /\ p[4] = n[4]
  /\ \A i \in 1..3: /\ p[i] <= p[4] /\ 0 <= p[i]
                    /\ Lo(IMD(n[i], n[4], M)) - 1 <= p[i] /\ p[i] <= Hi(IMD(n[i], n[4], M)) + 1
  /\ n[4] = M => \A i \in 1..3: p[i] = n[i]

(* squared distance of two colours, disregarding alpha, with coordinates    *)
(* scaled down by SC; an entry is surely farther when its distance is larger *)
(* even after each coordinate moves by one                                   *)
Sq(a) == a * a
DistLo(c, p) ==
  LET d(i) == Max2(0, Abs((c[i] \div SC) - ((p[i] * E) \div SC)) - 1) IN Sq(d(1)) + Sq(d(2)) + Sq(d(3))
DistHi(c, p) ==
  LET d(i) == Abs((c[i] \div SC) - ((p[i] * E) \div SC)) + 1 IN Sq(d(1)) + Sq(d(2)) + Sq(d(3))
Nearest(c, pl, i) ==
  /\ i \in 0..(Len(pl) - 1)
  /\ \A j \in 1..Len(pl): DistLo(c, pl[i + 1]) <= DistHi(c, pl[j])
(* an entry equal to the colour must be returned as that colour *)
NearestOK(c, pl, i) ==
  /\ Nearest(c, pl, i)
  /\ (\E j \in 1..Len(pl): \A k \in 1..3: c[k] = pl[j][k] * E)
       => \A k \in 1..3: c[k] = pl[i + 1][k] * E

(* luminance (ITU-R 601, the weights of image/color) of a non-premultiplied colour *)
Luma(c) == MulDiv(c[1], 19595, 65536) + MulDiv(c[2], 38470, 65536) + MulDiv(c[3], 7471, 65536)
(* an 8-bit rounding of a 16-bit value: either neighbour, exact when exact   *)
To8(v, w) == Abs(v * E - w) < E
GrayAOK(c, y, a) ==
  /\ To8(a, c[4])
  /\ c[4] >= E => /\ Near(y * E, Luma(c), E + 2)
                  /\ Grey(c) => To8(y, c[1])
=============================================================================
