------------------------------ MODULE XcfTree ------------------------------
(* What an image looks like after it was written as XCF.  C16, C24.          *)
EXTENDS Xcf

ToOrigin(ls) == LET u == Union(ls) IN [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.b = Shift(@, -u[1], -u[2])]]

(* modes: those XCF has a code for are kept in RGB files, the others become  *)
(* Normal; the bottom-most layer of the whole image may have no other than   *)
(* Normal and Dissolve                                                       *)
CodedModes == {LegacyModes[k]: k \in 1..Len(LegacyModes)}
HeldModes(base, m, bottom) ==
  IF base # 0 THEN {m, "Normal", "Dissolve", "Behind"}
  ELSE IF m \notin CodedModes THEN {"Normal"}
  ELSE IF bottom /\ m \notin {"Normal", "Dissolve"} THEN {m, "Normal"}
  ELSE {m}

(* ---- pixels: n before, is after, in the file's colour space ---- *)
(* kinds whose colours reach the file without a detour through premultiplied *)
(* alpha; a gray that is see-through makes one in an RGB file only           *)
ExactKind(base, c) ==
  c.k = "px" /\ (c.f \in {"nrgba", "lrgb", "gray", "pal", "pala", "grad", "tiled"} \/ (c.f \in {"ggray", "lgraya"} /\ base # 0))
(* equal but for rounding to 8 bits and through premultiplication *)
CloseN(a, b) ==
  LET al == Max2(1, Min2(a[4], b[4]))
  IN /\ Abs(a[4] - b[4]) <= E + 1
     /\ (a[4] > E /\ b[4] > E) => \A k \in 1..3: Abs(a[k] - b[k]) <= E + 2 + 4 * (M \div al)
GrayHeld(exact, n, is) ==
  /\ is[1] = is[2] /\ is[1] = is[3] /\ is[1] % E = 0 /\ is[4] % E = 0
  /\ IF exact THEN is[4] = 0 \/ GrayAOK(n, is[1] \div E, is[4] \div E)
     ELSE /\ Abs(is[4] - n[4]) <= E + 1
          /\ (n[4] > E /\ is[4] > E) => Near(is[1], Luma(n), E + 2 + 4 * (M \div Min2(n[4], is[4])))
(* indices have 8 bits: what is beyond them has no place in a file *)
Indexable(pal) == SubSeq(pal, 1, Min2(B + 1, Len(pal)))
PalHeld(exact, pal, n, is) ==
  /\ is[4] % E = 0 /\ Abs(is[4] - n[4]) <= E + 1
  /\ exact => To8(is[4] \div E, n[4])
  /\ is[4] = 0 \/ \E i \in 1..Len(pal): /\ \A k \in 1..3: is[k] = pal[i][k] * E
                                         /\ exact => NearestOK(n, pal, i - 1)
PixelHeld(e, c, x, y, is) ==
  LET n == ShowAt(c, x, y) x0 == ExactKind(e.base, c)
  IN CASE e.base = 0 -> IF x0 THEN Same(is, n) ELSE CloseN(n, is)
       [] e.base = 1 -> GrayHeld(x0, n, is)
       [] e.base = 2 -> PalHeld(x0, Indexable(e.pal), n, is)
PixelsHeld(e, c, o) == Len(o) > 0 /\ \A p \in 1..Len(o): PixelHeld(e, c, o[p][1], o[p][2], <<o[p][3], o[p][4], o[p][5], o[p][6]>>)

(* ---- text: per character; a colour that is see-through is none ---- *)
StyleOfDatum(d) ==
  [f |-> d.fb, z |-> d.z, fg |-> SubSeq(d.fg, 1, 3), bg |-> IF Len(d.bg) = 4 THEN (IF d.bg[4] = B THEN SubSeq(d.bg, 1, 3) ELSE <<>>) ELSE <<>>,
   ls |-> d.ls, r |-> d.r, b |-> d.bold, i |-> d.ital, u |-> d.und, st |-> d.str]
TextHeld(s, obs) ==
  TextRuns([k \in 1..Len(s) |-> <<s[k].db, StyleOfDatum(s[k])>>], 1, <<>>) =
  TextRuns([k \in 1..Len(obs) |-> <<obs[k].db, StyleOf(obs[k])>>], 1, <<>>)
RECURSIVE Joined(_), StringsOf(_), StringsIn(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE s[1].db \o Joined(Tail(s))
StringsIn(c) == CASE c.k = "px" -> <<>> [] c.k = "msk" -> StringsIn(c.c) [] c.k = "txt" -> <<Joined(c.s)>> [] c.k = "grp" -> StringsOf(c.l)
StringsOf(ls) == IF ls = <<>> THEN <<>> ELSE StringsIn(ls[1].c) \o StringsOf(Tail(ls))

(* ---- the tree ---- *)
RECURSIVE ContentHeld(_, _, _), TreeHeld(_, _, _, _)
ContentHeld(e, c, ob) ==
  CASE c.k = "px" -> ob.k = "px" /\ PixelsHeld(e, c, ob.pts)
    [] c.k = "grp" -> ob.k = "grp" /\ TreeHeld(e, c.l, ob.l, FALSE)
    [] c.k = "txt" -> ob.k = "txt" /\ TextHeld(c.s, ob.s) /\ PixelsHeld(e, c.c, ob.pts)
    [] c.k = "msk" ->
         /\ CASE c.c.k = "grp" -> ob.k = "gmsk" /\ TreeHeld(e, c.c.l, ob.l, FALSE)
              [] c.c.k = "txt" -> ob.k = "tmsk" /\ TextHeld(c.c.s, ob.s) /\ PixelsHeld(e, c.c.c, ob.pts)
              [] OTHER -> ob.k = "msk" /\ PixelsHeld(e, c.c, ob.pts)
         /\ EmptyB(ob.b) \/ Len(ob.mp) > 0
         /\ \A p \in 1..Len(ob.mp): ob.mp[p][3] * E = MaskAt(c, ob.mp[p][1], ob.mp[p][2])
TreeHeld(e, ls, obs, top) ==
  /\ Len(obs) = Len(ls)
  /\ \A i \in 1..Len(ls):
       LET ly == ls[i] ob == obs[i]
       IN /\ ob.n = ly.n /\ ob.b = ly.b /\ ob.i = ly.i /\ ob.t = ly.t
          /\ ob.m \in HeldModes(e.base, ly.m, top /\ i = Len(ls))
          /\ ContentHeld(e, ly.c, ob)

(* what is written of the picture of an experiment *)
Whole(e) == e.kind \in {"image", "pimage"}
Single(e) == [e.l[1] EXCEPT !.b = <<0, 0, @[3] - @[1], @[4] - @[2]>>]
AsImage(e) == IF Whole(e) THEN ToOrigin(e.l)
              ELSE IF e.kind \in {"layer", "player"} THEN <<Single(e)>>
              ELSE <<[Single(e) EXCEPT !.n = "", !.m = "Normal", !.i = 0, !.t = 0]>>
=============================================================================
