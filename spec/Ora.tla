-------------------------------- MODULE Ora --------------------------------
(* OpenRaster: what a stack document means, what an archive must contain,    *)
(* and how a layered image is written and read back.  C11..C15.              *)
(*                                                                           *)
(* A document is a sequence of tokens                                        *)
(*   [t |-> "o", e |-> element, a |-> attributes]   opening tag              *)
(*   [t |-> "c", e |-> element]                     closing tag              *)
(*   [t |-> "x"] text, comment ..   [t |-> "b"] broken syntax                *)
(* an attribute is [k, v, n, d, ok]: text v, or the number n / d when ok.    *)
EXTENDS Compose, TLC

Attr(as, k) == CHOOSE i \in 1..Len(as): as[i].k = k
Has(as, k) == \E i \in 1..Len(as): as[i].k = k
Text(as, k, dflt) == IF Has(as, k) THEN as[Attr(as, k)].v ELSE dflt
Num(as, k) == IF Has(as, k) THEN as[Attr(as, k)].n ELSE 0
NumOK(as, k) == Has(as, k) => as[Attr(as, k)].ok = 1

(* ---- the tree of a document ---- *)
RECURSIVE Kids(_, _)
Kids(ts, i) ==
  IF i > Len(ts) THEN [ok |-> TRUE, ks |-> <<>>, j |-> i]
  ELSE CASE ts[i].t = "x" -> Kids(ts, i + 1)
         [] ts[i].t = "b" -> [ok |-> FALSE, ks |-> <<>>, j |-> i]
         [] ts[i].t = "c" -> [ok |-> TRUE, ks |-> <<>>, j |-> i]
         [] OTHER ->
              LET in == Kids(ts, i + 1)
              IN IF ~in.ok \/ in.j > Len(ts) \/ ts[in.j].e # ts[i].e
                 THEN [ok |-> FALSE, ks |-> <<>>, j |-> i]
                 ELSE LET rest == Kids(ts, in.j + 1)
                      IN [rest EXCEPT !.ks = <<[e |-> ts[i].e, a |-> ts[i].a, k |-> in.ks]>> \o @]
Parsed(ts) == LET r == Kids(ts, 1) IN [ok |-> r.ok /\ r.j > Len(ts), ks |-> r.ks]

IsImage(n) == n.e = "image" /\ Has(n.a, "w") /\ Has(n.a, "h") /\ NumOK(n.a, "w") /\ NumOK(n.a, "h")

(* the configuration only needs the document up to the image's opening tag *)
RECURSIVE FirstOpen(_, _)
FirstOpen(ts, i) ==
  IF i > Len(ts) THEN 0
  ELSE IF ts[i].t = "x" THEN FirstOpen(ts, i + 1)
  ELSE IF ts[i].t = "o" THEN i ELSE 0
ConfigOK(ts) == LET i == FirstOpen(ts, 1) IN i > 0 /\ IsImage(ts[i])

Relevant(ks) == SelectSeq(ks, LAMBDA k: k.e \in {"stack", "layer"})
(* sources: [n (entry), ok (holds a readable picture), c (content)] *)
Src(srcs, name) == {i \in 1..Len(srcs): srcs[i].n = name /\ srcs[i].ok = 1}

RECURSIVE StackReadable(_, _)
StackReadable(ks, srcs) ==
  \A i \in 1..Len(ks):
    ks[i].e \in {"stack", "layer"} =>
      /\ NumOK(ks[i].a, "x") /\ NumOK(ks[i].a, "y") /\ NumOK(ks[i].a, "opacity")
      /\ IF ks[i].e = "stack" THEN StackReadable(ks[i].k, srcs)
         ELSE Src(srcs, Text(ks[i].a, "src", "")) # {}

Stacks(n) == SelectSeq(n.k, LAMBDA k: k.e = "stack")
(* the verdict on a document: "yes" it decodes, "no" it must not, "either" *)
DocVerdict(ts, srcs) ==
  LET p == Parsed(ts)
  IN IF ~p.ok \/ Len(p.ks) = 0 THEN "no"
     ELSE IF ~IsImage(p.ks[1]) THEN "no"
     ELSE IF Len(Stacks(p.ks[1])) = 0 THEN "no"
     ELSE IF ~StackReadable(Stacks(p.ks[1])[1].k, srcs) THEN "no"
     ELSE IF Len(p.ks) > 1 \/ Len(Stacks(p.ks[1])) > 1 THEN "either"
     ELSE "yes"
RootOf(ts) == Stacks(Parsed(ts).ks[1])[1]
CanvasOf(ts) == LET a == Parsed(ts).ks[1].a IN <<0, 0, Num(a, "w"), Num(a, "h")>>

(* ---- attributes ---- *)
OpName == [Normal |-> "svg:src-over", Multiply |-> "svg:multiply", Screen |-> "svg:screen", Overlay |-> "svg:overlay",
  DarkenOnly |-> "svg:darken", LightenOnly |-> "svg:lighten", Dodge |-> "svg:color-dodge", Burn |-> "svg:color-burn",
  HardLight |-> "svg:hard-light", SoftLight |-> "svg:soft-light", Difference |-> "svg:difference",
  Color |-> "svg:color", Luminosity |-> "svg:luminosity", Hue |-> "svg:hue", Saturation |-> "svg:saturation",
  Plus |-> "svg:plus", DestinationIn |-> "svg:dst-in", DestinationOut |-> "svg:dst-out",
  SourceAtop |-> "svg:src-atop", DestinationAtop |-> "svg:dst-atop"]
OraModes == DOMAIN OpName
OraMode(m) == IF m \in OraModes THEN m ELSE "Normal"
ModeNamed(op) == IF \E m \in OraModes: OpName[m] = op THEN CHOOSE m \in OraModes: OpName[m] = op ELSE "Normal"

(* is t one of the nearest of the 256 transparency levels to the opacity stated? *)
TransparencyOK(as, t) ==
  IF ~Has(as, "opacity") THEN t = 0
  ELSE LET o == as[Attr(as, "opacity")]
       IN IF o.n <= 0 THEN t = B
          ELSE IF o.n >= o.d THEN t = 0
          ELSE 2 * Abs(B * (o.d - o.n) - t * o.d) <= o.d
AttrsOK(as, ob) ==
  /\ ob.n = Text(as, "name", "")
  /\ ob.i = IF Text(as, "visibility", "visible") = "hidden" THEN 1 ELSE 0
  /\ ob.m = ModeNamed(Text(as, "composite-op", "svg:src-over"))
  /\ TransparencyOK(as, ob.t)

(* ---- what decoding shows ---- *)
(* an observed layer: [n, b, m, i, t, k ("grp" or "px"), l, pts], pts a      *)
(* sequence of <<u, v, r, g, b, a>> in coordinates of the layer's content    *)
Colour(p) == <<p[3], p[4], p[5], p[6]>>
Step8 == E
(* equal but for rounding to 8 bits and through premultiplication *)
Close(a, b) ==
  LET al == Max2(1, Min2(a[4], b[4]))
  IN /\ Abs(a[4] - b[4]) <= Step8 + 1
     /\ (a[4] > Step8 /\ b[4] > Step8) => \A k \in 1..3: Abs(a[k] - b[k]) <= Step8 + 2 + 4 * (M \div al)
(* the same but for the rounding of a 16 bit premultiplied colour *)
NearPre(a, b) ==
  /\ a[4] = b[4]
  /\ a[4] > 0 => \A k \in 1..3: Abs(a[k] - b[k]) <= 2 + M \div a[4]
RECURSIVE LeafOK(_, _, _, _), InText(_, _, _, _)
InText(c, x, y, is) ==
  IF c.k = "px" /\ c.f # "rgba" THEN NearPre(PixN(c, x, y), is) ELSE LeafOK(c, x, y, is)
LeafOK(c, x, y, is) ==
  CASE c.k = "px" -> IF c.f = "rgba" THEN Close(PixN(c, x, y), is)
                     ELSE IF c.f \in {"pala", "lgraya"} THEN NearPre(PixN(c, x, y), is)
                     ELSE Same(is, PixN(c, x, y))
    [] c.k = "txt" -> InText(c.c, x, y, is)
    [] c.k = "msk" -> LET n == ShowAt(c.c, x, y) IN Close(<<n[1], n[2], n[3], MulDiv(n[4], MaskAt(c, x, y), M)>>, is)

Size(c) == <<c.w, c.h>>


(* where the parts of an element lie on the canvas, before clipping *)
RECURSIVE Natural(_, _, _, _)
Natural(k, srcs, ax, ay) ==
  LET x == ax + Num(k.a, "x") y == ay + Num(k.a, "y")
  IN IF k.e = "layer"
     THEN LET c == srcs[CHOOSE i \in Src(srcs, Text(k.a, "src", "")): TRUE].c IN <<x, y, x + c.w, y + c.h>>
     ELSE LET ks == Relevant(k.k)
              RECURSIVE U(_)
              U(i) == IF i > Len(ks) THEN <<0, 0, 0, 0>> ELSE UnionB(Natural(ks[i], srcs, x, y), U(i + 1))
          IN U(1)
(* every stack within k starts inside box: what is decoded for a stack always *)
(* reaches from where it starts                                              *)
RECURSIVE StartsIn(_, _, _, _)
StartsIn(k, ax, ay, box) ==
  k.e = "stack" =>
    LET x == ax + Num(k.a, "x") y == ay + Num(k.a, "y") ks == Relevant(k.k)
    IN /\ box[1] <= x /\ box[2] <= y /\ x <= box[3] /\ y <= box[4]
       /\ \A i \in 1..Len(ks): StartsIn(ks[i], x, y, box)
Inside(a, b) == EmptyB(a) \/ (b[1] <= a[1] /\ b[2] <= a[2] /\ a[3] <= b[3] /\ a[4] <= b[4])

(* ks: elements; obs: observed layers; C: canvas; the enclosing stack is at  *)
(* (ax, ay) and what was decoded for it has its origin at (ox, oy)           *)
RECURSIVE StackShown(_, _, _, _, _, _, _, _)
StackShown(ks0, obs, srcs, C, ax, ay, ox, oy) ==
  LET ks == Relevant(ks0)
  IN /\ Len(obs) = Len(ks)
     /\ \A i \in 1..Len(ks):
          LET k == ks[i] ob == obs[i] x == ax + Num(k.a, "x") y == ay + Num(k.a, "y")
              at == Shift(ob.b, ox, oy)
          IN /\ AttrsOK(k.a, ob)
             /\ IF k.e = "layer"
                THEN LET c == srcs[CHOOSE j \in Src(srcs, Text(k.a, "src", "")): TRUE].c
                         vis == Meet(<<x, y, x + c.w, y + c.h>>, C)
                     IN /\ ob.k # "grp"
                        /\ SameB(at, vis)
                        /\ ~EmptyB(vis) =>
                             /\ Len(ob.pts) > 0
                             /\ \A p \in 1..Len(ob.pts):
                                  LeafOK(c, ob.pts[p][1] + vis[1] - x, ob.pts[p][2] + vis[2] - y, Colour(ob.pts[p]))
                ELSE LET nat == Natural(k, srcs, ax, ay)
                         own == <<0, 0, ob.b[3] - ob.b[1], ob.b[4] - ob.b[2]>>
                     IN /\ ob.k = "grp"
                        /\ StackShown(k.k, ob.l, srcs, C, x, y, at[1], at[2])
                        /\ \A j \in 1..Len(ob.l): Inside(ob.l[j].b, own)
                        /\ Inside(at, C)
                        (* nothing clipped: exactly where the document puts it *)
                        /\ (~EmptyB(nat) /\ Inside(nat, C) /\ Inside(<<x, y, x + 1, y + 1>>, C) /\ x <= nat[1] /\ y <= nat[2]
                         /\ StartsIn(k, ax, ay, <<x, y, nat[3], nat[4]>>)) =>
                              at = <<x, y, nat[3], nat[4]>>

(* ---- writing ---- *)
(* the image as OpenRaster can hold it: moved to the origin, modes mapped *)
RECURSIVE Held(_)
Held(ls) == [i \in 1..Len(ls) |->
  [ls[i] EXCEPT !.m = OraMode(@), !.c = IF @.k = "grp" THEN [@ EXCEPT !.l = Held(@)] ELSE @]]
ToOrigin(ls) == LET u == Union(ls) IN [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.b = Shift(@, -u[1], -u[2])]]
Written(ls) == Held(ToOrigin(ls))

(* the observed tree obs is the tree ls *)
RECURSIVE SameTree(_, _)
SameTree(ls, obs) ==
  /\ Len(obs) = Len(ls)
  /\ \A i \in 1..Len(ls):
       LET ly == ls[i] ob == obs[i]
       IN /\ ob.n = ly.n /\ SameB(ob.b, ly.b) /\ ob.m = ly.m /\ ob.i = ly.i /\ ob.t = ly.t
          /\ IF ly.c.k = "grp" THEN ob.k = "grp" /\ SameTree(ly.c.l, ob.l)
             ELSE /\ ob.k # "grp" /\ Len(ob.pts) > 0
                  /\ \A p \in 1..Len(ob.pts): LeafOK(ly.c, ob.pts[p][1], ob.pts[p][2], Colour(ob.pts[p]))

(* a document (its root's elements) says what the image ls is *)
RECURSIVE Says(_, _, _)
Says(ks0, ls, srcs) ==
  LET ks == Relevant(ks0)
  IN /\ Len(ks) = Len(ls)
     /\ \A i \in 1..Len(ls):
          LET k == ks[i] ly == ls[i]
          IN /\ AttrsOK(k.a, ly)
             /\ NumOK(k.a, "x") /\ NumOK(k.a, "y")
             /\ Num(k.a, "x") = ly.b[1] /\ Num(k.a, "y") = ly.b[2]
             /\ IF ly.c.k = "grp" THEN k.e = "stack" /\ Says(k.k, ly.c.l, srcs)
                ELSE /\ k.e = "layer"
                     /\ LET s == {j \in 1..Len(srcs): srcs[j].n = Text(k.a, "src", "")}
                        IN /\ \E j \in s: s = {j}          \* exists exactly once
                           /\ LET src == srcs[CHOOSE j \in s: TRUE]
                              IN /\ src.sz = <<ly.b[3] - ly.b[1], ly.b[4] - ly.b[2]>>
                                 /\ Len(src.pts) > 0
                                 /\ \A p \in 1..Len(src.pts): LeafOK(ly.c, src.pts[p][1], src.pts[p][2], Colour(src.pts[p]))
RECURSIVE Sources(_)
Sources(ks) ==
  IF ks = <<>> THEN <<>>
  ELSE (IF ks[1].e = "layer" THEN <<Text(ks[1].a, "src", "")>> ELSE IF ks[1].e = "stack" THEN Sources(ks[1].k) ELSE <<>>)
       \o Sources(Tail(ks))

(* the document the encoder should write, as tokens (used on small models) *)
NumA(k, n) == [k |-> k, v |-> "", n |-> n, d |-> 1, ok |-> 1]
StrA(k, v) == [k |-> k, v |-> v, n |-> 0, d |-> 1, ok |-> 0]
RECURSIVE LeafCount(_), TokensOf(_, _)
LeafCount(ls) == IF ls = <<>> THEN 0
  ELSE (IF ls[1].c.k = "grp" THEN LeafCount(ls[1].c.l) ELSE 1) + LeafCount(Tail(ls))
TokensOf(ls, n) ==        \* n: sources used so far
  IF ls = <<>> THEN <<>>
  ELSE LET ly == ls[1]
           as == <<StrA("name", ly.n), NumA("x", ly.b[1]), NumA("y", ly.b[2]),
                   StrA("visibility", IF ly.i = 1 THEN "hidden" ELSE "visible"),
                   [k |-> "opacity", v |-> "", n |-> B - ly.t, d |-> B, ok |-> 1],
                   StrA("composite-op", OpName[OraMode(ly.m)])>>
           here == IF ly.c.k = "grp"
                   THEN <<[t |-> "o", e |-> "stack", a |-> as]>> \o TokensOf(ly.c.l, n) \o <<[t |-> "c", e |-> "stack"]>>
                   ELSE <<[t |-> "o", e |-> "layer", a |-> as \o <<StrA("src", ToString(n))>>], [t |-> "c", e |-> "layer"]>>
       IN here \o TokensOf(Tail(ls), n + LeafCount(<<ly>>))
DocTokens(ls) ==
  LET u == Union(ls)
  IN <<[t |-> "o", e |-> "image", a |-> <<NumA("w", u[3] - u[1]), NumA("h", u[4] - u[2])>>],
       [t |-> "o", e |-> "stack", a |-> <<>>]>> \o TokensOf(ToOrigin(ls), 0)
     \o <<[t |-> "c", e |-> "stack"], [t |-> "c", e |-> "image"]>>
RECURSIVE SourcesOf(_, _)
SourcesOf(ls, n) ==
  IF ls = <<>> THEN <<>>
  ELSE (IF ls[1].c.k = "grp" THEN SourcesOf(ls[1].c.l, n) ELSE <<[n |-> ToString(n), ok |-> 1, c |-> ls[1].c]>>)
       \o SourcesOf(Tail(ls), n + LeafCount(<<ls[1]>>))

(* decoding, as a function (used on small models): the layers a stack shows *)
RECURSIVE Decoded(_, _, _, _, _, _, _)
Decoded(ks0, srcs, C, ax, ay, ox, oy) ==
  LET ks == Relevant(ks0)
  IN [i \in 1..Len(ks) |->
       LET k == ks[i] x == ax + Num(k.a, "x") y == ay + Num(k.a, "y") as == k.a
           nat == Meet(Natural(k, srcs, ax, ay), C)
           org == IF k.e = "layer" THEN <<nat[1], nat[2]>>
                  ELSE IF EmptyB(nat) THEN <<x, y>>
                  ELSE <<Max2(C[1], Min2(x, nat[1])), Max2(C[2], Min2(y, nat[2]))>>
           t == IF Has(as, "opacity") THEN LET o == as[Attr(as, "opacity")] IN
                  CHOOSE v \in 0..B: TransparencyOK(as, v) ELSE 0
       IN [n |-> Text(as, "name", ""), m |-> ModeNamed(Text(as, "composite-op", "")),
           i |-> IF Text(as, "visibility", "") = "hidden" THEN 1 ELSE 0, t |-> t,
           b |-> IF EmptyB(nat) THEN <<0, 0, 0, 0>>
                 ELSE Shift(<<org[1], org[2], nat[3], nat[4]>>, -ox, -oy),
           c |-> IF k.e = "layer"
                 THEN LET c == srcs[CHOOSE j \in Src(srcs, Text(as, "src", "")): TRUE].c
                      IN IF EmptyB(nat) \/ (nat[1] = x /\ nat[2] = y) THEN c
                         ELSE [k |-> "win", c |-> c, dx |-> nat[1] - x, dy |-> nat[2] - y]
                 ELSE [k |-> "grp", l |-> Decoded(k.k, srcs, C, x, y, org[1], org[2])]]]
DecodeDoc(ts, srcs) == Decoded(RootOf(ts).k, srcs, CanvasOf(ts), 0, 0, 0, 0)

(* ---- the thumbnail ---- *)
ThumbSizeOK(w, h, tw, th) ==
  LET big == Max2(w, h)
  IN IF big <= 256 THEN tw = w /\ th = h
     ELSE /\ tw \in 1..256 /\ th \in 1..256 /\ Max2(tw, th) >= 255
          /\ (Abs(tw * big - w * 256) <= big \/ (tw = 1 /\ w * 256 < big))
          /\ (Abs(th * big - h * 256) <= big \/ (th = 1 /\ h * 256 < big))
(* the part of the picture a thumbnail pixel stands for, one pixel generous *)
Cell(w, h, tw, th, x, y) ==
  <<Max2(0, (x * w) \div tw - 1), Max2(0, (y * h) \div th - 1),
    Min2(w, ((x + 1) * w) \div tw + 2), Min2(h, ((y + 1) * h) \div th + 2)>>
=============================================================================
