------------------------------ MODULE MCCompose -----------------------------
(* Builds every small layered picture (one row high, black, white or         *)
(* transparent pixels: M = 1, where all rounding vanishes) by pushing layers *)
(* and wrapping the list into a group, and checks the meaning of compositing *)
(* and of sub-images on it.  With EMIT the pictures are written out, to be   *)
(* replayed into the implementation.                                         *)
EXTENDS Compose, TLC, Json

CONSTANTS WIDE, MODES, CONTS, STEPS, EMIT

Offs == IF WIDE THEN {-1, 0, 1} ELSE {-1, 1}
T == <<0, 0, 0, 0>>
K == <<0, 0, 0, 1>>
W == <<1, 1, 1, 1>>
R == <<1, 0, 0, 1>>
px(p) == [k |-> "px", f |-> "nrgba", w |-> Len(p), h |-> 1, p |-> p]
Content(n) ==
  CASE n = "wt" -> px(<<W, T>>)
    [] n = "kw" -> px(<<K, W>>)
    [] n = "rk" -> px(<<R, K>>)
    [] n = "tr" -> px(<<T, R>>)
    [] n = "mk" -> [k |-> "msk", c |-> px(<<W, R>>), mb |-> <<0, 0, 2, 1>>, mp |-> <<1, 0>>]
    [] n = "mo" -> [k |-> "msk", c |-> px(<<W, R>>), mb |-> <<1, 0, 2, 1>>, mp |-> <<1>>]
    [] n = "pl" -> [k |-> "px", f |-> "pal", w |-> 2, h |-> 1, p |-> <<<<1>>, <<0>>>>, pl |-> <<<<0, 1, 0>>, <<1, 1, 0>>>>]
    [] n = "pa" -> [k |-> "px", f |-> "pala", w |-> 2, h |-> 1, p |-> <<<<1, 1>>, <<0, 0>>>>, pl |-> <<<<0, 1, 0>>, <<1, 1, 0>>>>]

HT == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Leaf(n, o, m, ht) == [n |-> n, b |-> <<o, 0, o + 2, 1>>, m |-> m, i |-> ht[1], t |-> ht[2], c |-> Content(n)]

VARIABLES img, steps
Init == img = <<>> /\ steps = 0
Push == \E n \in CONTS, o \in Offs, m \in MODES, ht \in HT:
           img' = <<Leaf(n, o, m, ht)>> \o img
Wrap == /\ Len(img) > 0
        /\ \E o \in Offs, m \in {"Normal", "Multiply"}, cut \in {2, 3}:
             img' = <<[n |-> "g", b |-> <<o, 0, o + cut, 1>>, m |-> m, i |-> 0, t |-> 0,
                       c |-> [k |-> "grp", l |-> img]]>>
Next == \/ steps < STEPS /\ steps' = steps + 1 /\ (Push \/ Wrap)
        \/ EMIT /\ steps = STEPS /\ steps' = STEPS + 1 /\ img' = img /\ PrintT(<<"BEH", ToJson(img)>>)
Spec == Init /\ [][Next]_<<img, steps>>

Tree == [k |-> "grp", l |-> img]
Xs == -3..5
Show(c) == [x \in Xs |-> ShowAt(c, x, 0)]

RECURSIVE Obs(_, _, _)
Obs(c, x, y) ==
  CASE c.k = "px" -> [v |-> PixN(c, x, y)]
    [] c.k = "msk" -> LET o == Obs(c.c, x, y) IN [v |-> Scale(o.v, MaskAt(c, x, y)), c |-> o]
    [] c.k = "grp" ->
         LET n == Len(c.l)
         IN [v |-> FoldFrom(c, 1, x, y), acc |-> [i \in 1..(n + 1) |-> FoldFrom(c, i, x, y)],
             lay |-> [i \in 1..n |->
                LET ly == c.l[i] o == Obs(ly.c, x - ly.b[1], y - ly.b[2])
                IN [on |-> 1, v |-> Scale(o.v, (B - ly.t) * E), c |-> o]]]

RelationAcceptsMeaning == \A x \in Xs: ShowOK(Tree, x, 0, Obs(Tree, x, 0))
NothingOutside == \A x \in Xs: (\A i \in 1..Len(img): img[i].i = 1 \/ ~InB(x, 0, img[i].b)) => Show(Tree)[x] = Zero
HiddenFree ==
  LET keep == [i \in 1..Len(img) |-> i = 1 \/ img[i].i = 0]
      RECURSIVE F(_)
      F(i) == IF i > Len(img) THEN <<>> ELSE (IF keep[i] THEN <<img[i]>> ELSE <<>>) \o F(i + 1)
  IN Show([k |-> "grp", l |-> F(1)]) = Show(Tree)
GroupOfAll ==
  ~ModelOf(Tree) => Show([k |-> "grp", l |-> <<[n |-> "g", b |-> <<-3, 0, 6, 1>>, m |-> "Normal", i |-> 0, t |-> 0,
       c |-> [k |-> "grp", l |-> [i \in 1..Len(img) |-> [img[i] EXCEPT !.b = <<@[1] + 3, @[2], @[3] + 3, @[4]>>]]]]>>]) = Show(Tree)
Rects == {<<0, 0, 1, 1>>, <<-1, 0, 2, 1>>, <<1, 0, 3, 1>>}
Cropped(r) == [k |-> "grp", l |-> [i \in 1..Len(img) |-> Crop(img[i], r)]]
CropKeepsPicture == \A r \in Rects: \A x \in r[1]..(r[3] - 1): ShowAt(Cropped(r), x, 0) = ShowAt(Tree, x, 0)
CropTwice == \A r, s \in Rects: LET q == Meet(r, s)
    IN \A x \in q[1]..(q[3] - 1):
       ShowAt([k |-> "grp", l |-> [i \in 1..Len(img) |-> Crop(Crop(img[i], r), s)]], x, 0) = ShowAt(Tree, x, 0)
CropBounds == \A r \in Rects: \A i \in 1..Len(img):
    /\ SameB(Crop(img[i], r).b, Meet(img[i].b, r))
    /\ Crop(img[i], r).m = img[i].m /\ Crop(img[i], r).i = img[i].i /\ Crop(img[i], r).t = img[i].t
(* the bounds of a picture: all that is shown is within, and no less would do *)
Around(ls) == LET u == Union(ls) IN
  /\ \A i \in 1..Len(ls): EmptyB(ls[i].b) \/ Meet(ls[i].b, u) = ls[i].b
  /\ \A k \in 1..4: EmptyB(u) \/ \E i \in 1..Len(ls): ~EmptyB(ls[i].b) /\ ls[i].b[k] = u[k]
  /\ \A x \in Xs: ~InB(x, 0, u) => ShowAt([k |-> "grp", l |-> ls], x, 0) = Zero
BoundsAround == Around(img) /\ \A r \in Rects: Around(CropAll(img, r)) /\ (EmptyB(Union(CropAll(img, r))) \/ Meet(r, Union(CropAll(img, r))) = Union(CropAll(img, r)))
ModelStays == \A r \in Rects: Model([k |-> "grp", l |-> CropAll(img, r)]) = Model(Tree)
OpaqueStays == \A x \in Xs: \A i \in 1..Len(img):
    (FoldFrom(Tree, i + 1, x, 0)[4] = M) => FoldFrom(Tree, i, x, 0)[4] = M
=============================================================================
