-------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic on the scale 0..M (M stands for 1.0).  The code    *)
(* works with M = 65535; the model is also checked with small M, where the   *)
(* state space is exhausted.  An arithmetic operation of the code may round  *)
(* down or up, so the specification's results are intervals <<lo, hi>>: each *)
(* multiplication or division contributes at most one step, and none when it *)
(* is exact.  TLC's integers have 32 bits, hence the 8-bit limbs in MulDiv.  *)
EXTENDS Integers, Sequences

CONSTANT M

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))
Max3(a, b, c) == Max2(a, Max2(b, c))
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(a) == Max2(0, Min2(M, a))

(* floor(a*b/d) and whether the division left a remainder, 0<=a,b<=2^17, 0<d<=131071 *)
MDQ(a, b, d) ==
  LET t == a * (b \div 256)
      u == (t % d) * 256 + a * (b % 256)
  IN (t \div d) * 256 + (u \div d)
MDR(a, b, d) ==
  LET t == a * (b \div 256)
  IN ((t % d) * 256 + a * (b % 256)) % d

MulDiv(a, b, d) == MDQ(a, b, d)
MulDivUp(a, b, d) == IF MDR(a, b, d) = 0 THEN MDQ(a, b, d) ELSE MDQ(a, b, d) + 1
MulDivNear(a, b, d) == IF 2 * MDR(a, b, d) >= d THEN MDQ(a, b, d) + 1 ELSE MDQ(a, b, d)

(* intervals *)
Ex(a) == <<a, a>>
Lo(i) == i[1]
Hi(i) == i[2]
IMD(a, b, d) == <<MulDiv(a, b, d), MulDivUp(a, b, d)>>      \* a*b/d
IMulDiv(i, b, d) == <<MulDiv(Lo(i), b, d), MulDivUp(Hi(i), b, d)>>
INeg(i) == <<M - Hi(i), M - Lo(i)>>                          \* 1 - i
IAdd(i, j) == <<Lo(i) + Lo(j), Hi(i) + Hi(j)>>
IClamp(i) == <<Clamp(Lo(i)), Clamp(Hi(i))>>
IHull(i, j) == <<Min2(Lo(i), Lo(j)), Max2(Hi(i), Hi(j))>>
IWiden(i, t) == <<Clamp(Lo(i) - t), Clamp(Hi(i) + t)>>
In(v, i) == Lo(i) <= v /\ v <= Hi(i)
Near(a, b, t) == Abs(a - b) <= t
=============================================================================
