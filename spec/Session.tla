------------------------------ MODULE Session ------------------------------
(* A session with layered pictures: pictures are cropped, saved in either    *)
(* format and read again, pixels are stored.  Pictures made by cropping are  *)
(* views, which show what is stored later; pictures read from files are not. *)
(* Nothing but a store changes a picture.  C26, C27.                         *)
(*                                                                           *)
(* The state is a sequence of pictures [l (layers), v (how often it was      *)
(* stored to)]; leaves that can be stored to have an id other than 0.        *)
EXTENDS Compose, TLC
CONSTANTS RS, TILE
O == INSTANCE Ora
X == INSTANCE XcfTree

Flat(c) == [k |-> "win", c |-> c, dx |-> 0, dy |-> 0, w |-> 0, h |-> 0]

(* ---- saving: what the file holds, read again ---- *)
RECURSIVE Frozen(_), FrozenAll(_)
Frozen(c) ==
  CASE c.k = "px" -> [c EXCEPT !.id = 0]
    [] c.k = "grp" -> [c EXCEPT !.l = FrozenAll(@)]
    [] OTHER -> [c EXCEPT !.c = Frozen(@)]
FrozenAll(ls) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.c = Frozen(@)]]
(* OpenRaster: pictures and stacks; a stack reaches as far as its layers *)
RECURSIVE OraAll(_)
OraAll(ls) == [i \in 1..Len(ls) |->
  LET ly == [ls[i] EXCEPT !.m = O!OraMode(@)]
  IN IF EmptyB(ly.b) THEN [ly EXCEPT !.b = <<0, 0, 0, 0>>]
     ELSE IF ly.c.k = "grp"
     THEN LET k == OraAll(ly.c.l) u == Union(k)
          IN [ly EXCEPT !.c.l = k, !.b = <<@[1], @[2], @[1] + Max2(0, u[3]), @[2] + Max2(0, u[4])>>]
     ELSE IF ly.c.k \in {"msk", "txt"} THEN [ly EXCEPT !.c = Flat(@)]
     ELSE ly]
(* XCF: the modes it has codes for, and only Normal and Dissolve at the bottom *)
Nothing == [k |-> "px", f |-> "nrgba", w |-> 0, h |-> 0, p |-> <<>>, l |-> <<>>, id |-> 0]
RECURSIVE Bare(_), XcfAll(_, _), XcfC(_)
Bare(c) == IF c.k \in {"msk", "txt"} THEN Bare(c.c) ELSE c
XcfC(c) ==
  CASE c.k = "grp" -> [c EXCEPT !.l = XcfAll(@, FALSE)]
    [] c.k = "msk" -> [c EXCEPT !.c = XcfC(@)]
    [] c.k = "txt" -> IF c.c.k = "msk" THEN [c EXCEPT !.c = Flat(@)] ELSE c
    [] OTHER -> c
XcfAll(ls, top) == [i \in 1..Len(ls) |->
  [ls[i] EXCEPT !.c = IF EmptyB(ls[i].b) /\ Bare(@).k # "grp" THEN Nothing ELSE XcfC(@),
                !.m = IF @ \notin X!CodedModes \/ (top /\ i = Len(ls) /\ @ # "Dissolve") THEN "Normal" ELSE @]]
Formats == {"ora", "xcf"}
Saved(f, ls) == LET t == FrozenAll(O!ToOrigin(ls)) IN IF f = "ora" THEN OraAll(t) ELSE XcfAll(t, TRUE)(* an OpenRaster file holds a merged picture, which has to have a size *)
Blank(ls) == \A i \in 1..Len(ls): EmptyB(ls[i].b)
(* and so have its pictures; what lies out of view is not written *)
RECURSIVE Unwritable(_)
Unwritable(ls) == \E i \in 1..Len(ls): LET c == ls[i].c IN
  IF c.k = "grp" THEN (EmptyB(ls[i].b) => Blank(c.l)) /\ Unwritable(c.l)
  ELSE c.k = "px" /\ (c.w = 0 \/ c.h = 0)

(* ---- storing ---- *)
RECURSIVE StoreC(_, _, _, _, _), StoreAll(_, _, _, _, _), HasId(_, _), HasIdL(_, _)
StoreC(c, id, x, y, v) ==
  CASE c.k = "px" -> IF c.id = id THEN [c EXCEPT !.p[y * c.w + x + 1] = v] ELSE c
    [] c.k = "grp" -> [c EXCEPT !.l = StoreAll(@, id, x, y, v)]
    [] OTHER -> [c EXCEPT !.c = StoreC(@, id, x, y, v)]
StoreAll(ls, id, x, y, v) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.c = StoreC(@, id, x, y, v)]]
HasId(c, id) == CASE c.k = "px" -> c.id = id [] c.k = "grp" -> HasIdL(c.l, id) [] OTHER -> HasId(c.c, id)
HasIdL(ls, id) == \E i \in 1..Len(ls): HasId(ls[i].c, id)

(* ---- the steps ---- *)
(* a step: [do, from, r, id, x, y, v]; pictures made are put last *)
After(pics, s) ==
  CASE s.do = "crop" -> Append(pics, [l |-> CropAll(pics[s.from].l, s.r), v |-> 0])
    [] s.do \in {"ora", "xcf", "xcfc"} -> Append(pics, [l |-> Saved(IF s.do = "ora" THEN "ora" ELSE "xcf", pics[s.from].l), v |-> 0])
    [] s.do = "store" -> [k \in 1..Len(pics) |->
                            IF HasIdL(pics[k].l, s.id) THEN [l |-> StoreAll(pics[k].l, s.id, s.x, s.y, s.v), v |-> pics[k].v + 1] ELSE pics[k]]
    [] OTHER -> pics

(* ---- what is seen of a picture ---- *)
RECURSIVE KindOf(_), Exactly(_), MaskOf(_), TextOf(_)
KindOf(c) ==
  CASE c.k = "grp" -> "grp"
    [] c.k = "msk" -> (LET k == KindOf(c.c) IN IF k = "txt" THEN "tmsk" ELSE IF k = "grp" THEN "gmsk" ELSE "msk")
    [] c.k = "txt" -> IF c.c.k = "msk" THEN "tmsk" ELSE "txt"
    [] OTHER -> "px"
MaskOf(c) == IF c.k = "msk" THEN c ELSE IF c.k = "txt" THEN MaskOf(c.c) ELSE c
TextOf(c) == IF c.k = "txt" THEN c.s ELSE IF c.k = "msk" THEN TextOf(c.c) ELSE <<>>
(* do the colours of a leaf come through files without any loss? *)
Exactly(c) == CASE c.k = "px" -> c.f \in {"nrgba", "lrgb", "gray", "pal", "grad", "tiled"}
                [] c.k = "win" -> Exactly(c.c)
                [] OTHER -> FALSE
Near3(a, b) ==              \* a few roundings to 8 bits, through premultiplied alpha
  LET al == Max2(1, Min2(a[4], b[4]))
  IN /\ Abs(a[4] - b[4]) <= 3 * E
     /\ (a[4] > 4 * E /\ b[4] > 4 * E) => \A k \in 1..3: Abs(a[k] - b[k]) <= 3 * E + 12 * (M \div al)
LooksLike(c, x, y, is) == LET n == ShowAt(c, x, y) IN IF Exactly(c) THEN Same(is, n) ELSE Near3(n, is)
RECURSIVE Seen(_, _)
Seen(ls, obs) ==
  /\ Len(obs) = Len(ls)
  /\ \A i \in 1..Len(ls):
       LET ly == ls[i] ob == obs[i] c == Bare(ly.c) k == KindOf(ly.c)
       IN /\ ob.n = ly.n /\ ob.i = ly.i /\ ob.t = ly.t /\ ob.m = ly.m
          /\ SameB(ob.b, ly.b)
          /\ ~EmptyB(ly.b) =>
               /\ ob.k = k
               /\ IF c.k = "grp" THEN Seen(c.l, ob.l)
                  ELSE /\ Len(ob.pts) > 0
                       /\ \A p \in 1..Len(ob.pts): LooksLike(c, ob.pts[p][1], ob.pts[p][2], <<ob.pts[p][3], ob.pts[p][4], ob.pts[p][5], ob.pts[p][6]>>)
               /\ k \in {"msk", "tmsk", "gmsk"} =>
                    /\ Len(ob.mp) > 0
                    /\ \A p \in 1..Len(ob.mp): ob.mp[p][3] * E = MaskAt(MaskOf(ly.c), ob.mp[p][1], ob.mp[p][2])
               /\ k \in {"txt", "tmsk"} => X!TextHeld(TextOf(ly.c), ob.s)
=============================================================================
