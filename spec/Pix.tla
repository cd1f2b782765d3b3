-------------------------------- MODULE Pix --------------------------------
(* A pixel image as a bounded array of pixels with shared views (C07, C08).  *)
(* mem maps the points of the parent's bounds to stored values; a view is    *)
(* just a rectangle inside them.  kind: "rgb" <<r,g,b>>, "graya" <<y,a>>,    *)
(* "pala" <<index, a>>.                                                      *)
EXTENDS Compose

Points(b) == {<<x, y>>: x \in b[1]..(b[3] - 1), y \in b[2]..(b[4] - 1)}
ZeroPix(kind) == IF kind = "rgb" THEN <<0, 0, 0>> ELSE <<0, 0>>

NewImg(kind, b) == [kind |-> kind, mem |-> [p \in Points(b) |-> ZeroPix(kind)], views |-> <<b>>]

Get(s, v, x, y) == IF InB(x, y, s.views[v]) THEN s.mem[<<x, y>>] ELSE ZeroPix(s.kind)
Put(s, v, x, y, val) == IF InB(x, y, s.views[v]) THEN [s EXCEPT !.mem[<<x, y>>] = val] ELSE s
SubBounds(s, v, r) == Meet(s.views[v], r)
Sub(s, v, r) == [s EXCEPT !.views = Append(@, LET b == SubBounds(s, v, r) IN IF EmptyB(b) THEN <<0, 0, 0, 0>> ELSE b)]
PixAlpha(kind, val) == IF kind = "rgb" THEN B ELSE val[2]
IsOpaque(s, v) == \A p \in Points(s.views[v]): PixAlpha(s.kind, s.mem[p]) = B

(* what a typed colour becomes when stored; pre is its premultiplied value, *)
(* n its non-premultiplied one                                              *)
StoredOK(kind, pl, n, pre, val) ==
  CASE kind = "rgb" -> \A i \in 1..3: To8(val[i], pre[i])
    [] kind = "graya" -> GrayAOK(n, val[1], val[2])
    [] kind = "pala" -> To8(val[2], n[4]) /\ (n[4] # 0 => NearestOK(n, pl, val[1]))

(* the colour a stored value is shown as *)
ShownAs(kind, pl, val) ==
  CASE kind = "rgb" -> Non([k |-> "lrgb", v |-> val])
    [] kind = "graya" -> Non([k |-> "lgraya", v |-> val])
    [] kind = "pala" -> LET q == pl[val[1] + 1] IN Non([k |-> "nrgba", v |-> <<q[1], q[2], q[3], val[2]>>])

(* ---- the same of large images, as the list of what was stored where ---- *)
(* s: [kind, views, fills <<[r, val]..>>], the last fill that covers a point *)
(* counts; the cells between the edges of the fills hold one value each      *)
NewBig(kind, b) == [kind |-> kind, views |-> <<b>>, fills |-> <<>>]
FillBig(s, v, r, val) == LET q == Meet(r, s.views[v]) IN IF EmptyB(q) THEN s ELSE [s EXCEPT !.fills = Append(@, [r |-> q, val |-> val])]
RECURSIVE LastFill(_, _, _, _)
LastFill(f, i, x, y) == IF i = 0 THEN 0 ELSE IF InB(x, y, f[i].r) THEN i ELSE LastFill(f, i - 1, x, y)
StoredBig(s, x, y) == LET i == LastFill(s.fills, Len(s.fills), x, y) IN IF i = 0 THEN ZeroPix(s.kind) ELSE s.fills[i].val
GetBig(s, v, x, y) == IF InB(x, y, s.views[v]) THEN StoredBig(s, x, y) ELSE ZeroPix(s.kind)
Cuts(s, b, k) == {b[k]} \cup {c \in UNION {{s.fills[i].r[k], s.fills[i].r[k + 2]}: i \in 1..Len(s.fills)}: b[k] < c /\ c < b[k + 2]}
CutEnd(cs, c, end) == LET later == {d \in cs: d > c} IN IF later = {} THEN end ELSE CHOOSE d \in later: \A q \in later: d <= q
Cells(s, b) ==         \* [val, n] of every cell of b
  IF EmptyB(b) THEN {} ELSE
  LET xs == Cuts(s, b, 1) ys == Cuts(s, b, 2)
  IN {[x |-> x, y |-> y, val |-> StoredBig(s, x, y), n |-> (CutEnd(xs, x, b[3]) - x) * (CutEnd(ys, y, b[4]) - y)]: x \in xs, y \in ys}
RECURSIVE SumN(_)
SumN(cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs: TRUE IN c.n + SumN(cs \ {c})
(* h: <<value.., count>> of all the values of a view *)
HistOK(s, v, h) ==
  LET cs == Cells(s, s.views[v])
      n == IF s.kind = "rgb" THEN 3 ELSE 2
  IN /\ {SubSeq(h[i], 1, n): i \in 1..Len(h)} = {c.val: c \in cs}
     /\ \A i \in 1..Len(h): h[i][n + 1] = SumN({c \in cs: c.val = SubSeq(h[i], 1, n)})
IsOpaqueBig(s, v) == \A c \in Cells(s, s.views[v]): PixAlpha(s.kind, c.val) = B
=============================================================================
