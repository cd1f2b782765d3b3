----------------------------- MODULE MCSession ------------------------------
(* Every short session with every small picture of a family (one row high,   *)
(* black, white, red or transparent pixels: M = 1, where all rounding        *)
(* vanishes): cropping, saving and storing in any order, from any picture    *)
(* there is.  With EMIT the sessions are written out, to be replayed into    *)
(* the implementation.                                                       *)
EXTENDS Session, Json

CONSTANTS STEPS, MODES, CONTS, RECTS, GROUPS, OFFS, EMIT

T == <<0, 0, 0, 0>>
K == <<0, 0, 0, 1>>
W == <<1, 1, 1, 1>>
R == <<1, 0, 0, 1>>
px(id, p) == [k |-> "px", f |-> "nrgba", w |-> Len(p), h |-> 1, p |-> p, l |-> <<>>, id |-> id]
Content(n, id) ==
  CASE n = "kw" -> px(id, <<K, W>>)
    [] n = "tr" -> px(id, <<T, R>>)
    [] n = "mk" -> [k |-> "msk", c |-> px(id, <<W, R>>), mb |-> <<0, 0, 2, 1>>, mp |-> <<1, 0>>, l |-> <<>>, id |-> 0]
    [] n = "mo" -> [k |-> "msk", c |-> px(id, <<W, R>>), mb |-> <<1, 0, 2, 1>>, mp |-> <<1>>, l |-> <<>>, id |-> 0]
Ly(n, b, m, i, t, c) == [n |-> n, b |-> b, m |-> m, i |-> i, t |-> t, c |-> c]
Leaf(n, id, o, m, i) == Ly("leaf", <<o, 0, o + 2, 1>>, m, i, 0, Content(n, id))
(* groups: of one layer, of two, with a group in it, masked, see-through; what they hold lies within them *)
Grp(l) == [k |-> "grp", l |-> l, id |-> 0]
Group(g, n, o, m) ==
  CASE g = "one" -> Ly("one", <<o, 0, o + 3, 1>>, m, 0, 0, Grp(<<Leaf(n, 1, 1, "Normal", 0)>>))
    [] g = "two" -> Ly("two", <<o, 0, o + 3, 1>>, m, 0, 0, Grp(<<Leaf(n, 1, 1, m, 0), Leaf("kw", 3, 0, "Normal", 0)>>))
    [] g = "deep" -> Ly("deep", <<o, 0, o + 3, 1>>, m, 0, 0,
                        Grp(<<Ly("in", <<0, 0, 3, 1>>, "Normal", 0, 0, Grp(<<Leaf(n, 1, 0, "Normal", 0), Leaf("kw", 3, 1, "Normal", 0)>>))>>))
    [] g = "mask" -> Ly("mask", <<o, 0, o + 3, 1>>, m, 0, 0,
                        [k |-> "msk", c |-> Grp(<<Leaf(n, 1, 1, "Normal", 0)>>), mb |-> <<0, 0, 3, 1>>, mp |-> <<1, 1, 0>>, l |-> <<>>, id |-> 0])
    [] g = "thin" -> Ly("thin", <<o, 0, o + 2, 1>>, m, 0, 1, Grp(<<Leaf(n, 1, 0, "Normal", 0)>>))
Offs == {o - 1: o \in OFFS}
Tops == {Leaf(n, 1, o, m, i): n \in CONTS, o \in Offs, m \in MODES, i \in {0, 1}}
     \cup {Group(g, n, o, m): g \in GROUPS, n \in CONTS, o \in Offs, m \in MODES}
Bottoms == {Leaf(n, 2, 0, "Normal", 0): n \in CONTS}

VARIABLES pics,         \* the pictures there are
          hist,         \* how each came to be: [live, a, b (the part of the first one it shows), dx (where), was]
          steps
vars == <<pics, hist, steps>>
Xs == -2..5
At1(ls, x) == ShowAt([k |-> "grp", l |-> ls], x, 0)
Whole == [live |-> TRUE, a |-> -9, b |-> 9, dx |-> 0, was |-> <<>>]
Init == \E t \in Tops, b \in Bottoms: pics = <<[l |-> <<t, b>>, v |-> 0]>> /\ hist = <<Whole>> /\ steps = <<>>
Rect(n) == CASE n = "l" -> <<-1, 0, 1, 1>> [] n = "m" -> <<1, 0, 2, 1>> [] n = "r" -> <<1, 0, 4, 1>> [] n = "o" -> <<3, 0, 9, 1>>
Do(s) == pics' = After(pics, s) /\ steps' = Append(steps, s)
St(do, from) == [do |-> do, from |-> from, r |-> <<>>, id |-> 0, x |-> 0, y |-> 0, v |-> <<>>]
Save == \E f \in Formats, j \in 1..Len(pics):
  LET ls == pics[j].l h == hist[j]
  IN /\ f = "ora" => ~Blank(ls) /\ ~Unwritable(ls)
     /\ Do(St(f, j))
     /\ hist' = Append(hist, [h EXCEPT !.live = FALSE, !.dx = @ - Union(ls)[1],
                                      !.was = IF h.live THEN [x \in Xs |-> At1(pics[1].l, x)] ELSE @])
CropIt == \E j \in 1..Len(pics), n \in RECTS:
  LET r == Rect(n) h == hist[j]
  IN /\ Do([St("crop", j) EXCEPT !.r = r])
     /\ hist' = Append(hist, [h EXCEPT !.a = Max2(@, r[1] - h.dx), !.b = Min2(@, r[3] - h.dx)])
Store == \E id \in 1..3, x \in 0..1, v \in {T, W}:
     /\ HasIdL(pics[1].l, id)
     /\ Do([St("store", 1) EXCEPT !.id = id, !.x = x, !.v = v])
     /\ hist' = hist
Emit == EMIT /\ Len(steps) = STEPS /\ steps' = Append(steps, St("end", 1)) /\ UNCHANGED <<pics, hist>>
        /\ PrintT(<<"BEH", ToJson([l |-> pics[1].l, steps |-> steps])>>)
Next == (Len(steps) < STEPS /\ (Save \/ CropIt \/ Store)) \/ Emit
Spec == Init /\ [][Next]_vars

(* cropped pictures show, within, what the first one shows now; saved ones what it showed then *)
Shows == \A k \in 1..Len(pics): LET h == hist[k] IN \A x \in Xs:
  At1(pics[k].l, x + h.dx) =
    IF x < h.a \/ x >= h.b THEN Zero ELSE IF h.live THEN At1(pics[1].l, x) ELSE h.was[x]
(* what layers are called and how they are shown comes along *)
RECURSIVE Alike(_, _)
Alike(p, q) == /\ Len(p) = Len(q)
               /\ \A i \in 1..Len(p):
                    /\ p[i].n = q[i].n /\ p[i].i = q[i].i /\ p[i].t = q[i].t /\ p[i].m = q[i].m
                    /\ (Bare(p[i].c).k = "grp" /\ Bare(q[i].c).k = "grp") => Alike(Bare(p[i].c).l, Bare(q[i].c).l)
NamesStay == \A k \in 1..Len(pics): Alike(pics[1].l, pics[k].l)
(* layers lie where they did, as far as they can be seen *)
PlacesStay == \A k \in 1..Len(pics): \A i \in 1..Len(pics[1].l):
  LET b == pics[1].l[i].b h == hist[k] IN
  Bare(pics[1].l[i].c).k # "grp" =>
    SameB(pics[k].l[i].b, <<Max2(b[1], h.a) + h.dx, 0, Min2(b[3], h.b) + h.dx, 1>>)
(* saving what was saved changes nothing *)
SaveIdem == \A k \in 1..Len(pics), f \in Formats:
  LET s == Saved(f, pics[k].l) IN (Blank(pics[k].l) \/ Unwritable(pics[k].l)) \/ Saved(f, s) = s
(* what can be stored to belongs to the first picture and its views *)
OwnPixels == \A k \in 1..Len(pics): ~hist[k].live => \A id \in 1..3: ~HasIdL(pics[k].l, id)
(* nothing but a store changes a picture, and no store changes what was read from a file *)
OnlyStores == [][\A k \in 1..Len(pics): pics'[k] # pics[k] => hist[k].live /\ steps'[Len(steps')].do = "store"]_vars
=============================================================================
