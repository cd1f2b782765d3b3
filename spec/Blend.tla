------------------------------- MODULE Blend -------------------------------
(* Composition of two colours <<r, g, b, a>> (not premultiplied, 0..M).      *)
(* C02: the published separable formulas; C03: the alpha rules; C04: Dissolve;*)
(* C05: the component modes (in LColor's terms).                             *)
EXTENDS LColor

Separable == {"Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract",
  "DarkenOnly", "LightenOnly", "Divide", "Dodge", "Burn", "HardLight", "SoftLight",
  "GrainExtract", "GrainMerge"}
Component == {"Hue", "Saturation", "Color", "Value", "Luminosity"}
NormalLike == {"Normal", "Plus", "DestinationIn", "DestinationOut", "SourceAtop",
  "DestinationAtop", "ColorErase", "Chroma", "Lightness", "VividLight", "PinLight",
  "LinearLight", "HardMix", "Exclusion", "LinearBurn", "Luminance", "Erase", "Merge",
  "Split", "PassThrough"}

HalfDn == M \div 2
HalfUp == M - HalfDn

(* the formula of a separable mode on one channel, x below, y above *)
Formula(m, x, y) ==
  CASE m = "Multiply" -> IMD(x, y, M)
    [] m = "Screen" -> INeg(IMD(M - x, M - y, M))
    [] m \in {"Overlay", "SoftLight"} ->
         IClamp(IAdd(IMulDiv(IMD(x, x, M), M - y, M), IMulDiv(INeg(IMD(M - x, M - x, M)), y, M)))
    [] m = "Difference" -> Ex(Abs(x - y))
    [] m = "Addition" -> Ex(Min2(M, x + y))
    [] m = "Subtract" -> Ex(Max2(0, x - y))
    [] m = "DarkenOnly" -> Ex(Min2(x, y))
    [] m = "LightenOnly" -> Ex(Max2(x, y))
    [] m = "Divide" -> IF x = 0 THEN Ex(0) ELSE IF x >= y THEN Ex(M) ELSE IClamp(IMD(M, x, y))
    [] m = "Dodge" -> IF x = 0 THEN Ex(0) ELSE IF x >= M - y THEN Ex(M) ELSE IClamp(IMD(M, x, M - y))
    [] m = "Burn" -> IF x = M THEN Ex(M) ELSE IF M - x >= y THEN Ex(0) ELSE INeg(IMD(M, M - x, y))
    [] m = "HardLight" -> IF y <= HalfDn THEN IMD(x, 2 * y, M)
                          ELSE IClamp(INeg(IMD(M - x, 2 * M - 2 * y, M)))
    [] m = "GrainExtract" -> IClamp(<<x - y + HalfDn, x - y + HalfUp>>)
    [] m = "GrainMerge" -> IClamp(<<x + y - HalfUp, x + y - HalfDn>>)

(* the share of the top when alpha a2 is laid over alpha a1, not both zero *)
CoverLo(a1, a2) == M - MulDivUp(M - a1, M - a2, M)
CoverHi(a1, a2) == M - MulDiv(M - a1, M - a2, M)
Share(a1, a2) ==
  IF a2 = 0 THEN Ex(0)
  ELSE <<Min2(M, MulDiv(M, a2, CoverHi(a1, a2))), Min2(M, MulDivUp(M, a2, Max2(1, CoverLo(a1, a2))))>>

LerpLo(k, x, f) == MulDiv(M - k, x, M) + MulDiv(k, f, M)
LerpHi(k, x, f) == MulDivUp(M - k, x, M) + MulDivUp(k, f, M)

(* channel x of alpha a1 with the colour in interval f laid over it with alpha a2 *)
Mix(a1, x, a2, f) ==
  LET k == Share(a1, a2)
  IN <<Clamp(Min2(LerpLo(Lo(k), x, Lo(f)), LerpLo(Hi(k), x, Lo(f)))),
       Clamp(Max2(LerpHi(Lo(k), x, Hi(f)), LerpHi(Hi(k), x, Hi(f))))>>

MixExact(a1, x, a2, f) ==      \* the exact real value rounded down, for the model
  IF a2 = 0 THEN x ELSE Lo(Mix(a1, x, a2, f))

Same(c, d) == c = d \/ (c[4] = 0 /\ d[4] = 0)    \* colour is meaningless under zero alpha

NormalOK(b, t, r) ==
  LET al == <<CoverLo(b[4], t[4]), CoverHi(b[4], t[4])>>
  IN /\ In(r[4], al)
     /\ (r[4] # 0) => \A i \in 1..3: In(r[i], Mix(b[4], b[i], t[4], Ex(t[i])))
     /\ (t[4] = M) => r = t
     /\ (t[4] = 0) => Same(r, b)
     /\ (b[4] = 0) => Same(r, t)

SeparableOK(m, b, t, r) ==
  IF b[4] = 0 THEN r[4] = 0
  ELSE /\ r[4] = b[4]
       /\ \A i \in 1..3: In(r[i], Mix(b[4], b[i], Min2(b[4], t[4]), Formula(m, b[i], t[i])))
       /\ (t[4] = 0) => r = b

(* the colour with the named components of the top and the others of the bottom *)
ComponentTarget(m, b, t) ==
  LET bv == ToHSV(b) tv == ToHSV(t) bl == ToHSL(b) tl == ToHSL(t)
  IN CASE m = "Hue" -> IF Grey(t) THEN <<b[1], b[2], b[3]>> ELSE FromHSV(tv[1], bv[2], bv[3])
       [] m = "Saturation" -> FromHSV(bv[1], tv[2], bv[3])
       [] m = "Value" -> FromHSV(bv[1], bv[2], tv[3])
       [] m = "Color" -> FromHSL(tl[1], tl[2], bl[3])
       [] m = "Luminosity" -> FromHSL(bl[1], bl[2], tl[3])

ComponentOK(m, b, t, r) ==
  IF b[4] = 0 THEN r[4] = 0
  ELSE /\ r[4] = b[4]
       /\ LET c == ComponentTarget(m, b, t)
          IN \A i \in 1..3: In(r[i], IWiden(Mix(b[4], b[i], Min2(b[4], t[4]), Ex(c[i])), 2 * HTOL))
       /\ (t[4] = 0 \/ (m = "Hue" /\ Grey(t))) => \A i \in 1..3: Near(r[i], b[i], 1)

DissolveOK(b, t, r) ==
  \/ t[4] # M /\ Same(r, b)
  \/ t[4] # 0 /\ r = <<t[1], t[2], t[3], M>>

CompOK(m, b, t, r) ==
  CASE m \in Separable -> SeparableOK(m, b, t, r)
    [] m \in Component -> ComponentOK(m, b, t, r)
    [] m = "Behind" -> Same(r, b)
    [] m = "Dissolve" -> DissolveOK(b, t, r)
    [] m = "DestinationAtop" -> NormalOK(t, b, r)   \* implemented as the bottom laid over the top
    [] OTHER -> NormalOK(b, t, r)

(* scaling the alpha by o (0..M): masks and opacity (C10) *)
ScaleOK(c, o, r) ==
  IF o = M THEN Same(r, c)
  ELSE IF o = 0 \/ c[4] = 0 THEN r[4] = 0
  ELSE In(r[4], IMD(c[4], o, M)) /\ (r[4] # 0 => \A i \in 1..3: r[i] = c[i])
=============================================================================
