------------------------------ MODULE Compose ------------------------------
(* Layered images as trees of contents:                                      *)
(*   [k |-> "px",  f, w, h, p (raw pixels, row major), pl (palette)]         *)
(*   [k |-> "grp", l (sequence of layers, first on top)]                     *)
(*   [k |-> "msk", c (content), mb (mask bounds), mp (mask values 0..B)]     *)
(*   [k |-> "txt", c (content)]                                              *)
(* and layers [n, b <<x0,y0,x1,y1>>, m (mode), i (hidden), t (transparency   *)
(* 0..B), c].  C01, C09, C10.                                                *)
EXTENDS Blend, FiniteSets

InB(x, y, b) == b[1] <= x /\ x < b[3] /\ b[2] <= y /\ y < b[4]
EmptyB(b) == b[1] >= b[3] \/ b[2] >= b[4]
Meet(a, b) == <<Max2(a[1], b[1]), Max2(a[2], b[2]), Min2(a[3], b[3]), Min2(a[4], b[4])>>
Shift(b, dx, dy) == <<b[1] + dx, b[2] + dy, b[3] + dx, b[4] + dy>>
(* the smallest rectangle around both, around all the layers *)
UnionB(a, b) == IF EmptyB(a) THEN b ELSE IF EmptyB(b) THEN a
                ELSE <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
RECURSIVE Union(_)
Union(ls) == IF ls = <<>> THEN <<0, 0, 0, 0>> ELSE UnionB(ls[1].b, Union(Tail(ls)))
SameB(a, b) == (EmptyB(a) /\ EmptyB(b)) \/ a = b
Zero == <<0, 0, 0, 0>>

(* the colour a pixel array shows at a point *)
PixN(c, x, y) ==
  IF ~InB(x, y, <<0, 0, c.w, c.h>>)
  THEN Zero                      \* outside the array: whatever the type's zero is, see ShowOK
  ELSE IF c.f = "tiled"                  \* squares of one colour each
  THEN Non([k |-> "nrgba", v |-> c.p[((x \div 64 + 5 * (y \div 64)) % Len(c.p)) + 1]])
  ELSE IF c.f \in {"grad", "ggray"}       \* large pictures given by a function
  THEN LET q == c.p[1]
           a == IF q[2] = 0 THEN B ELSE (x * 3 + y * 5 + q[2]) % (B + 1)
           r == (x + q[1]) % (B + 1) g == y % (B + 1)
           b == ((x \div (B + 1)) * 7 + (y \div (B + 1)) * 11 + q[1]) % (B + 1)
       IN IF c.f = "grad" THEN Non([k |-> "nrgba", v |-> <<r, g, b, a>>])
          ELSE Non([k |-> "lgraya", v |-> <<(x * 3 + y * 7 + q[1]) % (B + 1), a>>])
  ELSE LET p == c.p[((y * c.w + x) % Len(c.p)) + 1]      \* large pictures may repeat
       IN CASE c.f = "nrgba" -> Non([k |-> "nrgba", v |-> p])
            [] c.f = "nrgba64" -> p
            [] c.f = "rgba" -> Non([k |-> "rgba", v |-> p])
            [] c.f = "gray" -> Non([k |-> "gray", v |-> p])
            [] c.f = "lrgb" -> Non([k |-> "lrgb", v |-> p])
            [] c.f = "lgraya" -> Non([k |-> "lgraya", v |-> p])
            [] c.f = "pal" -> LET q == c.pl[p[1] + 1] IN Non([k |-> "lrgb", v |-> q])
            [] c.f = "pala" -> LET q == c.pl[p[1] + 1] IN Non([k |-> "nrgba", v |-> <<q[1], q[2], q[3], p[2]>>])

RECURSIVE ModelOf(_)
ModelOf(c) ==                    \* does the content use a plain palette?
  CASE c.k = "px" -> c.f = "pal"
    [] c.k = "grp" -> IF Len(c.l) = 0 THEN FALSE ELSE ModelOf(c.l[1].c)
    [] OTHER -> ModelOf(c.c)

MaskAt(c, x, y) ==
  IF ~InB(x, y, c.mb) THEN 0
  ELSE c.mp[(((y - c.mb[2]) * (c.mb[3] - c.mb[1]) + (x - c.mb[1])) % Len(c.mp)) + 1] * E

HalfAlpha == HalfUp

(* one step of the fold over a group's layers: acc below, layer value v, new acc r *)
StepOK(pal, ly, x, y, acc, v, r) ==
  IF ly.i = 1 \/ ~InB(x, y, ly.b) THEN r = acc
  ELSE IF pal /\ ly.m # "Dissolve"
       THEN IF v[4] >= HalfAlpha THEN r = <<v[1], v[2], v[3], M>> ELSE r = acc
       ELSE CompOK(ly.m, acc, v, r)

(* The observation o of a content at a point mirrors the tree: o.v is the    *)
(* colour shown; groups list o.acc (the colour after layers i.., ending with *)
(* the initial transparency) and o.lay (per layer [on, v, c], on = 0 when    *)
(* the layer does not take part and was not looked at).                      *)
RECURSIVE ShowOK(_, _, _, _)
ShowOK(c, x, y, o) ==
  CASE c.k = "px" -> Same(o.v, PixN(c, x, y)) \/ ~InB(x, y, <<0, 0, c.w, c.h>>)
    [] c.k = "txt" -> ShowOK(c.c, x, y, o.c) /\ Same(o.v, o.c.v)
    [] c.k = "msk" -> ShowOK(c.c, x, y, o.c) /\ ScaleOK(o.c.v, MaskAt(c, x, y), o.v)
    [] c.k = "grp" ->
         /\ Len(o.acc) = Len(c.l) + 1 /\ Len(o.lay) = Len(c.l)
         /\ o.acc[Len(c.l) + 1][4] = 0
         /\ o.v = o.acc[1] \/ Same(o.v, o.acc[1]) \/ (Len(c.l) > 0 /\ c.l[1].m = "Dissolve")
         /\ \A i \in 1..Len(c.l):
              LET ly == c.l[i] w == o.lay[i]
              IN /\ StepOK(ModelOf(c), ly, x, y, o.acc[i + 1], w.v, o.acc[i])
                 /\ (ly.i = 0 /\ InB(x, y, ly.b)) =>
                       /\ w.on = 1
                       /\ ScaleOK(w.c.v, (B - ly.t) * E, w.v)
                       /\ ShowOK(ly.c, x - ly.b[1], y - ly.b[2], w.c)

(* ------------------------------------------------------------------------ *)
(* The deterministic meaning, used on small models: rounding down.           *)
Scale(c, o) == IF o = M THEN c ELSE IF o = 0 THEN Zero ELSE <<c[1], c[2], c[3], MulDiv(c[4], o, M)>>

Comp(m, b, t) ==
  CASE m = "Behind" -> b
    [] m = "Dissolve" -> IF t[4] = M THEN t ELSE b    \* only used with alpha 0 or M
    [] m \in Separable ->
         IF b[4] = 0 THEN Zero
         ELSE [i \in 1..4 |-> IF i = 4 THEN b[4]
                 ELSE Lo(Mix(b[4], b[i], Min2(b[4], t[4]), Ex(Lo(Formula(m, b[i], t[i])))))]
    [] m \in Component ->
         IF b[4] = 0 THEN Zero
         ELSE LET c == ComponentTarget(m, b, t)
              IN [i \in 1..4 |-> IF i = 4 THEN b[4] ELSE Lo(Mix(b[4], b[i], Min2(b[4], t[4]), Ex(c[i])))]
    [] OTHER ->
         IF b[4] = 0 /\ t[4] = 0 THEN Zero
         ELSE [i \in 1..4 |-> IF i = 4 THEN CoverHi(b[4], t[4]) ELSE Lo(Mix(b[4], b[i], t[4], Ex(t[i])))]

RECURSIVE ShowAt(_, _, _), FoldFrom(_, _, _, _)
ShowAt(c, x, y) ==
  CASE c.k = "px" -> PixN(c, x, y)
    [] c.k = "txt" -> ShowAt(c.c, x, y)
    [] c.k = "win" -> ShowAt(c.c, x + c.dx, y + c.dy)
    [] c.k = "msk" -> Scale(ShowAt(c.c, x, y), MaskAt(c, x, y))
    [] c.k = "grp" -> FoldFrom(c, 1, x, y)
FoldFrom(c, i, x, y) ==
  IF i > Len(c.l) THEN Zero
  ELSE LET ly == c.l[i] acc == FoldFrom(c, i + 1, x, y)
       IN IF ly.i = 1 \/ ~InB(x, y, ly.b) THEN acc
          ELSE LET v == Scale(ShowAt(ly.c, x - ly.b[1], y - ly.b[2]), (B - ly.t) * E)
               IN IF ModelOf(c) /\ ly.m # "Dissolve"
                  THEN IF v[4] >= HalfAlpha THEN <<v[1], v[2], v[3], M>> ELSE acc
                  ELSE Comp(ly.m, acc, v)

(* ---- sub-images (C09) ---- *)
(* the w x h part of a content from (dx, dy), moved to the origin; and the    *)
(* part of a layer within r, in its place: what lies within stays as it is,   *)
(* what lies out of view has no size                                          *)
RECURSIVE CropC(_, _, _, _, _), Crop(_, _)
CropC(c, dx, dy, w, h) ==
  CASE c.k = "grp" -> [c EXCEPT !.l = [i \in 1..Len(c.l) |->
                         LET s == Crop(c.l[i], <<dx, dy, dx + w, dy + h>>)
                         IN IF EmptyB(s.b) THEN s ELSE [s EXCEPT !.b = Shift(@, -dx, -dy)]]]
    [] c.k = "msk" -> [c EXCEPT !.c = CropC(@, dx, dy, w, h), !.mb = Shift(@, -dx, -dy)]
    [] c.k = "txt" -> [c EXCEPT !.c = CropC(@, dx, dy, w, h)]
    [] c.k = "win" -> [c EXCEPT !.dx = @ + dx, !.dy = @ + dy, !.w = w, !.h = h]
    [] OTHER -> [k |-> "win", c |-> c, dx |-> dx, dy |-> dy, w |-> w, h |-> h]
Crop(ly, r) ==
  LET b == Meet(ly.b, r)
  IN IF EmptyB(b) THEN [ly EXCEPT !.b = <<0, 0, 0, 0>>]
     ELSE IF b = ly.b THEN ly
     ELSE [ly EXCEPT !.b = b, !.c = CropC(@, b[1] - ly.b[1], b[2] - ly.b[2], b[3] - b[1], b[4] - b[2])]
CropAll(ls, r) == [i \in 1..Len(ls) |-> Crop(ls[i], r)]

(* ---- what images say of themselves (C28) ---- *)
RECURSIVE Extent(_), Model(_)
(* where a content lies *)
Extent(c) == CASE c.k \in {"px", "win"} -> <<0, 0, c.w, c.h>>
               [] c.k = "grp" -> Union(c.l)
               [] OTHER -> Extent(c.c)
(* the colour model: that of the first layer *)
Model(c) == CASE c.k = "px" -> [f |-> c.f, pl |-> IF c.f \in {"pal", "pala"} THEN c.pl ELSE <<>>]
              [] c.k = "grp" -> IF c.l = <<>> THEN [f |-> "alpha", pl |-> <<>>] ELSE Model(c.l[1].c)
              [] OTHER -> Model(c.c)
(* o: what was observed, [b, m, pl] of a content and, for groups, [lb, m, c] of every layer, for others their inside *)
RECURSIVE Tells(_, _)
Tells(c, o) ==
  /\ SameB(o.b, Extent(c))
  /\ [f |-> o.m, pl |-> o.pl] = Model(c)
  /\ CASE c.k = "grp" -> Len(o.l) = Len(c.l) /\ \A i \in 1..Len(c.l): SameB(o.l[i].lb, c.l[i].b) /\ o.l[i].m = Model(c.l[i].c).f /\ Tells(c.l[i].c, o.l[i].c)
       [] c.k \in {"msk", "txt"} -> Len(o.l) = 1 /\ Tells(c.c, o.l[1])
       [] OTHER -> TRUE
=============================================================================
