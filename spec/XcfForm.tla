------------------------------ MODULE XcfForm ------------------------------
(* What a file must be like for every reader of the format to follow it, not *)
(* only for one that is as lenient as ReadFile: its parts - the header with  *)
(* the lists of layers and channels, every layer, mask, hierarchy, level and *)
(* tile - are each of the right form, and together they are the file: no     *)
(* byte belongs to none of them, or to two.  C29.                            *)
EXTENDS Xcf, FiniteSets

(* a list of properties says nothing twice, and states its length rightly *)
RECURSIVE Once(_, _, _)
Once(b, i, seen) ==
  LET t == U32(b, i) n == U32(b, i + 4)
  IN IF t = 0 THEN TRUE ELSE t \notin seen /\ Once(b, i + 8 + n, seen \cup {t})

RECURSIVE RleEnd(_, _, _, _)
RleEnd(b, i, n, k) == IF k = 0 THEN i ELSE RleEnd(b, Rle(b, i, n).i, n, k - 1)
(* readers read a tile from its pointer to the next one's, and no more than this *)
MostTileData == (TILE * TILE * 4 * 3) \div 2

(* the parts of a picture: [ok, ps (sequence of <<start, end>>)] *)
PictureForm(b, i, f, c) ==
  LET ps == PtrSize(f.ver)
      l == Ptr(f.ver, b, i + 12)
      n == c.tx * TilesIn(c.h)
      at(k) == Ptr(f.ver, b, l + 8 + (k - 1) * ps)
      size(k) == LET x == TILE * ((k - 1) % c.tx) y == TILE * ((k - 1) \div c.tx) IN TileW(c, x) * TileH(c, y)
      end(k) == IF c.comp = 0 THEN at(k) + size(k) * c.bpp ELSE RleEnd(b, at(k), size(k), c.bpp)
      tiles == TLCEval([k \in 1..n |-> <<at(k), end(k)>>])
  IN [ok |-> /\ There(b, i, 12 + 2 * ps) /\ Ptr(f.ver, b, i + 12 + ps) = 0                    \* one level is enough
             /\ There(b, l, 8 + (n + 1) * ps) /\ Ptr(f.ver, b, l + 8 + n * ps) = 0
             /\ \A k \in 1..n: tiles[k][2] - tiles[k][1] <= MostTileData
             /\ \A k \in 1..(n - 1): tiles[k][1] < tiles[k + 1][1],
      ps |-> <<<<i, i + 12 + 2 * ps>>, <<l, l + 8 + (n + 1) * ps>>>> \o tiles]

NoForm == [ok |-> FALSE, ps |-> <<>>]
MaskForm(b, i, f, w, h) ==
  LET ps == PtrSize(f.ver)
      p == ChannelProps(b, Str(b, i + 8).i)
      hp == Ptr(f.ver, b, p.i)
      x == TLCEval(PictureForm(b, hp, f, Picture(b, hp, f, w, h, 1, 0)))
  IN [ok |-> x.ok /\ Once(b, Str(b, i + 8).i, {}), ps |-> <<<<i, p.i + ps>>>> \o x.ps]
LayerForm(b, i, f) ==
  LET ps == PtrSize(f.ver)
      w == U32(b, i) h == U32(b, i + 4) ty == U32(b, i + 8)
      nm == Str(b, i + 12)
      p == TLCEval(LayerProps(b, nm.i, f.base, NoProps))
      hp == Ptr(f.ver, b, p.i) mp == Ptr(f.ver, b, p.i + ps)
      c == TLCEval(Picture(b, hp, f, w, h, f.base, ty % 2))                                 \* groups have one, too
  IN IF c.s # "ok" THEN NoForm
     ELSE LET x == TLCEval(PictureForm(b, hp, f, c)) m == TLCEval(IF mp = 0 THEN [ok |-> TRUE, ps |-> <<>>] ELSE MaskForm(b, mp, f, w, h))
          IN [ok |-> x.ok /\ m.ok /\ Once(b, nm.i, {})
                     /\ \A k \in 1..Len(p.par): p.par[k][2] # <<>> /\ p.par[k][2][Len(p.par[k][2])] = 0,
              ps |-> <<<<i, p.i + 2 * ps>>>> \o x.ps \o m.ps]

(* they are the file: one after the other, whatever their order *)
Fill(ps, n) ==
  LET st == {ps[k][1]: k \in 1..Len(ps)} en == {ps[k][2]: k \in 1..Len(ps)}
  IN /\ \A k \in 1..Len(ps): ps[k][1] < ps[k][2]
     /\ Cardinality(st) = Len(ps) /\ Cardinality(en) = Len(ps)
     /\ 0 \in st /\ n \in en /\ st \ {0} = en \ {n}

WellFormed(b) ==
  LET f == TLCEval(ReadFile(b))
  IN /\ f.s = "ok"
     /\ LET hl == IF Precise(f.ver) THEN 30 ELSE 26
            p == ImageProps(b, hl, f.base, [s |-> "ok", i |-> 0, pal |-> <<>>, comp |-> 0])
            q == LayerPtrs(b, p.i, f.ver, <<>>)
            ch == p.i + (Len(q.v) + 1) * PtrSize(f.ver)                                    \* the list of channels: none
            ls == TLCEval([k \in 1..Len(q.v) |-> LayerForm(b, q.v[k], f)])
        IN /\ Once(b, hl, {})
           /\ There(b, ch, PtrSize(f.ver)) /\ Ptr(f.ver, b, ch) = 0
           /\ \A k \in 1..Len(ls): ls[k].ok
           /\ Fill(<<<<0, ch + PtrSize(f.ver)>>>> \o FlattenSeq([k \in 1..Len(ls) |-> ls[k].ps]), Len(b))
=============================================================================
