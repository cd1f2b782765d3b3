-------------------------------- MODULE Xcf --------------------------------
(* XCF, read from the bytes of a file: what a file is, whether it must be    *)
(* refused, and the tree of layers it shows.  C16..C22.                      *)
(*                                                                           *)
(* Everything read has a status s: "ok"; "no" when data the picture needs is *)
(* missing or its coding is violated, so the file must be refused; "odd"     *)
(* when the file does not follow the format in a way that leaves its meaning *)
(* open: it may be refused or not, but nothing else is claimed; "bad" when   *)
(* the file contradicts itself, or states what the format does not have,     *)
(* where nothing it might mean could be shown: it must be refused (C30).     *)
EXTENDS Compose, Rle, XcfText
CONSTANT TILE                   \* 64 in the format

Bad(r, s) == [r EXCEPT !.s = s]

(* ---- the header ---- *)
Versions == {<<102, 105, 108, 101>>} \cup {<<118, 48, 48 + (v \div 10), 48 + (v % 10)>>: v \in 1..13}
Magic == <<103, 105, 109, 112, 32, 120, 99, 102, 32>>
VersionOf(q) == IF q = <<102, 105, 108, 101>> THEN 0 ELSE (q[3] - 48) * 10 + q[4] - 48
Wide(ver) == ver >= 11           \* pointers of 64 bits
Precise(ver) == ver >= 4         \* the file states its precision
PtrSize(ver) == IF Wide(ver) THEN 8 ELSE 4
Ptr(ver, b, i) == IF Wide(ver) THEN U64(b, i) ELSE U32(b, i)

(* [s, i, v] of a string: i after it, v its bytes *)
Str(b, i) ==
  IF ~There(b, i, 4) THEN [s |-> "no", i |-> i, v |-> <<>>]
  ELSE LET n == U32(b, i)
       IN IF n = 0 THEN [s |-> "ok", i |-> i + 4, v |-> <<>>]
          ELSE IF ~There(b, i + 4, n) THEN [s |-> "no", i |-> i, v |-> <<>>]
          ELSE LET v == Cut(b, i + 4, n - 1)
               IN [s |-> IF U8(b, i + 3 + n) = 0 /\ Utf8(v, 1) THEN "ok" ELSE "bad", i |-> i + 4 + n, v |-> v]

(* ---- parts of properties whose content has a form of its own ---- *)
(* the position after it, or -1 when it is not well formed *)
RECURSIVE Parasites(_, _, _, _)
Parasites(b, i, e, ps) ==           \* between i and e: [s, v (sequence of <<name, data>>)]
  IF i = e THEN [s |-> "ok", v |-> ps]
  ELSE LET n == Str(b, i)
       IN IF n.s # "ok" \/ ~There(b, n.i, 8) THEN [s |-> IF n.s = "bad" THEN "bad" ELSE "no", v |-> ps]
          ELSE LET len == U32(b, n.i + 4) j == n.i + 8
               IN IF j > e \/ len > e - j THEN [s |-> "bad", v |-> ps]
                  ELSE IF ~There(b, j, len) THEN [s |-> "no", v |-> ps]
                  ELSE Parasites(b, j + len, e, Append(ps, <<n.v, Cut(b, j, len)>>))
SkipStr(b, i) == IF i < 0 \/ ~There(b, i, 4) THEN -1
                 ELSE IF ~There(b, i + 4, U32(b, i)) THEN -1 ELSE i + 4 + U32(b, i)
Over(b, i, n) == IF i < 0 \/ ~There(b, i, n) THEN -1 ELSE i + n
RECURSIVE SkipStrs(_, _, _)
SkipStrs(b, i, n) == IF n = 0 THEN i ELSE SkipStrs(b, SkipStr(b, i), n - 1)
RECURSIVE SkipPaths(_, _, _)
SkipPaths(b, i, n) ==
  IF n = 0 \/ i < 0 THEN i
  ELSE LET j == SkipStr(b, i)
       IN IF j < 0 \/ ~There(b, j, 17) THEN -1
          ELSE LET np == U32(b, j + 9) v == U32(b, j + 13)
                   k == Over(b, j + 17, IF v = 1 THEN 0 ELSE IF v = 2 THEN 4 ELSE 8)
               IN IF v \notin 1..3 \/ np > Len(b) THEN -1 ELSE SkipPaths(b, Over(b, k, 12 * np), n - 1)
RECURSIVE SkipPars(_, _, _), SkipStrokes(_, _, _), SkipVecs(_, _, _)
SkipPars(b, i, n) ==
  IF n = 0 \/ i < 0 THEN i
  ELSE LET j == SkipStr(b, i) IN IF j < 0 \/ ~There(b, j, 8) THEN -1 ELSE SkipPars(b, Over(b, j + 8, U32(b, j + 4)), n - 1)
SkipStrokes(b, i, n) ==
  IF n = 0 \/ i < 0 THEN i
  ELSE IF ~There(b, i, 16) THEN -1
  ELSE LET nf == U32(b, i + 8) np == U32(b, i + 12)
       IN IF U32(b, i) # 1 \/ nf \notin 2..6 \/ np > Len(b) THEN -1
          ELSE SkipStrokes(b, Over(b, i + 16, np * (4 * nf + 4)), n - 1)
SkipVecs(b, i, n) ==
  IF n = 0 \/ i < 0 THEN i
  ELSE LET j == SkipStr(b, i)
       IN IF j < 0 \/ ~There(b, j, 20) THEN -1
          ELSE LET m == U32(b, j + 12) k == U32(b, j + 16)
               IN IF m > Len(b) \/ k > Len(b) THEN -1
                  ELSE SkipVecs(b, SkipStrokes(b, SkipPars(b, j + 20, m), k), n - 1)

(* properties that say nothing about the picture, and the form of those that *)
(* have one: is the content of length n at j as the format has it?           *)
Irrelevant(t, n, b, j) ==
  CASE t = 6 -> n = 4 /\ U32(b, j) <= 255
    [] t \in {8, 9, 28} -> n = 4 /\ U32(b, j) \in {0, 1}
    [] t \in {20, 22} -> n = 4 /\ (t = 22 => U32(b, j) <= 4)
    [] t = 18 -> n % 5 = 0
    [] t = 19 -> n = 8
    [] t = 21 -> Parasites(b, j, j + n, <<>>).s = "ok"
    [] t = 23 -> n >= 8 /\ U32(b, j + 4) <= Len(b) /\ SkipPaths(b, j + 8, U32(b, j + 4)) = j + n
    [] t = 24 -> n >= 8 /\ SkipStrs(b, j + 8, 5) = j + n
    [] t = 25 -> n >= 12 /\ U32(b, j) = 1 /\ U32(b, j + 8) <= Len(b) /\ SkipVecs(b, j + 12, U32(b, j + 8)) = j + n
    [] t = 39 -> n % 2 = 0
    [] OTHER -> TRUE

(* those that state what the format does not have *)
OutOfRange(t, n, b, j) ==
  CASE t = 6 -> n = 4 /\ U32(b, j) > 255
    [] t \in {8, 9, 28} -> n = 4 /\ U32(b, j) > 1
    [] t = 22 -> n = 4 /\ U32(b, j) > 4
    [] t = 18 -> n % 5 # 0
    [] t = 39 -> n % 2 # 0
    [] t = 21 -> Parasites(b, j, j + n, <<>>).s = "bad"
    [] OTHER -> FALSE

(* ---- image properties: [s, i, pal, comp] ---- *)
RECURSIVE ImageProps(_, _, _, _)
ImageProps(b, i, base, a) ==
  IF ~There(b, i, 8) THEN Bad(a, "no")
  ELSE LET t == U32(b, i) n == U32(b, i + 4) j == i + 8
       IN IF t = 0 THEN IF n = 0 THEN [a EXCEPT !.i = j] ELSE Bad(a, "bad")
          ELSE IF ~There(b, j, n) THEN Bad(a, IF t \in {1, 17, 6, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 28, 39} THEN "odd" ELSE "no")
          ELSE IF t = 1 /\ base = 2
               THEN IF n < 4 THEN Bad(a, "odd")
                    ELSE LET c == U32(b, j)
                         IN IF c > 256 THEN Bad(a, "bad") ELSE IF n # 3 * c + 4 THEN Bad(a, "odd")
                            ELSE ImageProps(b, j + n, base, [a EXCEPT !.pal = TLCEval([k \in 1..c |-> Cut(b, j + 4 + 3 * (k - 1), 3)])])
          ELSE IF t = 17 THEN IF n # 1 \/ U8(b, j) > 1 THEN Bad(a, IF n = 1 THEN "bad" ELSE "odd")
                              ELSE ImageProps(b, j + 1, base, [a EXCEPT !.comp = U8(b, j)])
          ELSE IF Irrelevant(t, n, b, j) THEN ImageProps(b, j + n, base, a) ELSE Bad(a, IF OutOfRange(t, n, b, j) THEN "bad" ELSE "odd")

(* ---- layer properties ---- *)
LegacyModes == <<"Normal", "Dissolve", "Behind", "Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract",
  "DarkenOnly", "LightenOnly", "Hue", "Saturation", "Color", "Value", "Divide", "Dodge", "Burn", "HardLight", "SoftLight",
  "GrainExtract", "GrainMerge", "ColorErase", "Overlay", "Hue", "Chroma", "Color", "Lightness", "Normal", "Behind",
  "Multiply", "Screen", "Difference", "Addition", "Subtract", "DarkenOnly", "LightenOnly", "Hue", "Saturation", "Color",
  "Value", "Divide", "Dodge", "Burn", "HardLight", "SoftLight", "GrainExtract", "GrainMerge", "VividLight", "PinLight",
  "LinearLight", "HardMix", "Exclusion", "LinearBurn", "DarkenOnly", "LightenOnly", "Luminance", "ColorErase", "Erase",
  "Merge", "Split", "PassThrough">>
XModes(base, code) ==        \* what a mode's code may be read as
  IF code >= 62 THEN {"Normal"}
  ELSE IF base = 0 THEN {LegacyModes[code + 1]}
  ELSE CASE code = 2 -> {"Behind"} [] code = 29 -> {"Behind", "Normal"} [] code = 1 -> {"Dissolve", "Normal"} [] OTHER -> {"Normal"}

(* the transparencies (of 0..255) nearest to the opacity in a 32-bit float *)
FloatTransp(b, j) ==
  LET neg == U8(b, j) > 127
      e == (U8(b, j) % 128) * 2 + (U8(b, j + 1) \div 128)
      mh == 32768 + (U8(b, j + 1) % 128) * 256 + U8(b, j + 2)      \* 16 leading bits of the significand
  IN IF e = 255 THEN 0..B          \* not a number (or infinite)
     ELSE IF neg THEN {B}
     ELSE IF e >= 127 THEN {0}
     ELSE IF e < 118 THEN {B}
     ELSE LET one == 2 ^ (142 - e) f == 2 * B * mh + one q == f \div (2 * one) r == f % (2 * one)
          IN {B - q} \cup (IF r < 2 * B THEN {B - q + 1} \cap 0..B ELSE {}) \cup (IF 2 * one - r <= 2 * B THEN {B - q - 1} \cap 0..B ELSE {})

RECURSIVE LayerProps(_, _, _, _)
LayerProps(b, i, base, a) ==
  IF ~There(b, i, 8) THEN Bad(a, "no")
  ELSE LET t == U32(b, i) n == U32(b, i + 4) j == i + 8
           go(x) == LayerProps(b, j + n, base, x)
       IN IF t = 0 THEN IF n = 0 THEN [a EXCEPT !.i = j] ELSE Bad(a, "bad")
          ELSE IF ~There(b, j, n)
               THEN Bad(a, IF t \in {2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 20, 21, 26, 28, 29, 30, 31, 33} THEN "odd" ELSE "no")
          ELSE CASE t \in {6, 7, 8, 33} ->
                      IF n # 4 THEN Bad(a, "odd")
                      ELSE LET v == U32(b, j)
                           IN (CASE t = 6 -> IF v > 255 THEN Bad(a, "bad") ELSE go([a EXCEPT !.t = {B - v}])
                                [] t = 33 -> go([a EXCEPT !.t = FloatTransp(b, j)])
                                [] t = 8 -> IF v > 1 THEN Bad(a, "bad") ELSE go([a EXCEPT !.hid = 1 - v])
                                [] t = 7 -> go([a EXCEPT !.m = XModes(base, v)]))
                 [] t = 15 -> IF n # 8 \/ a.offs = 1 THEN Bad(a, "odd")
                              ELSE LET x == I32(b, j) y == I32(b, j + 4)
                                   IN IF x \notin -1000000000..1000000000 \/ y \notin -1000000000..1000000000
                                      THEN Bad(a, "odd") ELSE go([a EXCEPT !.x = x, !.y = y, !.offs = 1])
                 [] t = 29 -> IF n # 0 THEN Bad(a, "odd") ELSE go([a EXCEPT !.grp = 1])
                 [] t = 30 -> IF n % 4 # 0 THEN Bad(a, "bad") ELSE go([a EXCEPT !.path = [k \in 1..(n \div 4) |-> Cut(b, j + 4 * (k - 1), 4)]])
                 [] t = 21 -> LET p == Parasites(b, j, j + n, <<>>) IN IF p.s # "ok" THEN Bad(a, p.s) ELSE go([a EXCEPT !.par = p.v])
                 [] t \in {9, 10, 11, 12, 13, 28} -> IF n # 4 \/ U32(b, j) > 1 THEN Bad(a, "odd") ELSE go(a)
                 [] t \in {5, 20, 26, 31} -> IF n # 4 THEN Bad(a, "odd") ELSE go(a)
                 [] t = 2 -> IF n # 0 THEN Bad(a, "odd") ELSE go(a)
                 [] OTHER -> go(a)
NoProps == [s |-> "ok", i |-> 0, t |-> {0}, hid |-> 0, m |-> {"Normal"}, x |-> 0, y |-> 0, offs |-> 0, grp |-> 0, path |-> <<>>, par |-> <<>>]

(* ---- pixels ---- *)
(* a picture: [s, k "xpx", w, h, base, al, pal, tx, tiles]; a tile is        *)
(* [s, at (position, uncompressed), ch (operations per channel)]             *)
Channels(base, al) == (IF base = 0 THEN 3 ELSE 1) + al
TilesIn(n) == IF n = 0 THEN 0 ELSE (n - 1) \div TILE + 1
RECURSIVE TileChans(_, _, _, _, _)
TileChans(b, i, n, k, cs) ==
  IF k = 0 THEN [s |-> "ok", at |-> 0, ch |-> cs]
  ELSE LET r == Rle(b, i, n) IN IF r.s # "ok" THEN [s |-> r.s, at |-> 0, ch |-> <<>>] ELSE TileChans(b, r.i, n, k - 1, Append(cs, r.ops))
Worst(S) == IF "no" \in S THEN "no" ELSE IF "bad" \in S THEN "bad" ELSE IF "odd" \in S THEN "odd" ELSE "ok"

TileW(c, x) == Min2(TILE, c.w - TILE * (x \div TILE))
TileH(c, y) == Min2(TILE, c.h - TILE * (y \div TILE))
Raw(b, c, x, y, k) ==
  LET t == c.tiles[(y \div TILE) * c.tx + (x \div TILE) + 1]
      n == (y % TILE) * TileW(c, x) + (x % TILE)
  IN IF c.comp = 0 THEN U8(b, t.at + n * c.bpp + k - 1) ELSE ByteAt(b, t.ch[k], n)
(* are all indices of a tile in the palette? *)
IndicesOK(b, c, t, n) ==
  IF c.base # 2 \/ Len(c.pal) = 256 THEN TRUE
  ELSE IF c.comp = 0 THEN \A k \in 0..(n - 1): U8(b, t.at + k * c.bpp) < Len(c.pal)
  ELSE \A o \in 1..Len(t.ch[1]):
         LET p == t.ch[1][o] IN IF p[3] = 1 THEN p[4] < Len(c.pal) ELSE \A k \in 0..(p[2] - 1): U8(b, p[4] + k) < Len(c.pal)

Picture(b, i, f, w, h, base, al) ==
  LET bpp == Channels(base, al)
      c0 == [s |-> "no", k |-> "xpx", w |-> w, h |-> h, base |-> base, al |-> al, bpp |-> bpp, pal |-> f.pal, comp |-> f.comp, tx |-> 0, tiles |-> <<>>]
      ps == PtrSize(f.ver)
  IN IF ~There(b, i, 12 + ps) THEN c0
     ELSE IF U32(b, i) # w \/ U32(b, i + 4) # h \/ U32(b, i + 8) # bpp THEN Bad(c0, "bad")
     ELSE LET l == Ptr(f.ver, b, i + 12)
          IN IF ~There(b, l, 8) THEN c0
             ELSE IF U32(b, l) # w \/ U32(b, l + 4) # h THEN Bad(c0, "bad")
             ELSE LET tx == TilesIn(w) ty == TilesIn(h)
                  IN IF tx > 20000 \/ ty > 20000 THEN (IF tx = 0 \/ ty = 0 THEN Bad(c0, "odd") ELSE c0)
                     ELSE IF ~There(b, l + 8, tx * ty * ps) \/ ~There(b, l + 8 + tx * ty * ps, 4) THEN c0
                     ELSE IF U32(b, l + 8 + tx * ty * ps) # 0 THEN Bad(c0, "bad")
                     ELSE LET c == [c0 EXCEPT !.tx = tx]
                              size(k) == LET x == TILE * ((k - 1) % tx) y == TILE * ((k - 1) \div tx) IN TileW(c, x) * TileH(c, y)
                              tile(k) == LET at == Ptr(f.ver, b, l + 8 + (k - 1) * ps) n == size(k)
                                         IN IF f.comp = 0 THEN [s |-> IF There(b, at, n * bpp) THEN "ok" ELSE "no", at |-> at, ch |-> <<>>]
                                            ELSE TileChans(b, at, n, bpp, <<>>)
                              ts == TLCEval([k \in 1..(tx * ty) |-> tile(k)])
                              st == Worst({ts[k].s: k \in 1..(tx * ty)})
                          IN IF st # "ok" THEN Bad(c, st)
                             ELSE IF \E k \in 1..(tx * ty): ~IndicesOK(b, c, ts[k], size(k)) THEN Bad(c, "bad")
                             ELSE [c EXCEPT !.s = "ok", !.tiles = ts]

(* the colour of a picture at a point inside it *)
XPixel(b, c, x, y) ==
  CASE c.base = 0 -> Non([k |-> "nrgba", v |-> <<Raw(b, c, x, y, 1), Raw(b, c, x, y, 2), Raw(b, c, x, y, 3), IF c.al = 1 THEN Raw(b, c, x, y, 4) ELSE B>>])
    [] c.base = 1 -> Non([k |-> "lgraya", v |-> <<Raw(b, c, x, y, 1), IF c.al = 1 THEN Raw(b, c, x, y, 2) ELSE B>>])
    [] c.base = 2 -> LET q == c.pal[Raw(b, c, x, y, 1) + 1]
                     IN Non([k |-> "nrgba", v |-> <<q[1], q[2], q[3], IF c.al = 1 THEN Raw(b, c, x, y, 2) ELSE B>>])

(* ---- layers ---- *)
RECURSIVE ChannelProps(_, _)
ChannelProps(b, i) ==              \* [s, i]
  IF ~There(b, i, 8) THEN [s |-> "no", i |-> i]
  ELSE LET t == U32(b, i) n == U32(b, i + 4)
       IN IF t = 0 THEN [s |-> IF n = 0 THEN "ok" ELSE "bad", i |-> i + 8]
          ELSE IF t = 6 /\ (n # 4 \/ ~There(b, i + 8, 4)) THEN [s |-> "odd", i |-> i]
          ELSE IF t = 6 /\ U32(b, i + 8) > 255 THEN [s |-> "bad", i |-> i]
          ELSE IF ~There(b, i + 8, n) THEN [s |-> "no", i |-> i]
          ELSE ChannelProps(b, i + 8 + n)
MaskAtPos(b, i, f, w, h) ==        \* the mask of a layer of that size
  LET no == [s |-> "no"]
  IN IF ~There(b, i, 8) THEN no
     ELSE LET n == Str(b, i + 8)
          IN IF n.s # "ok" THEN [s |-> IF n.s = "bad" THEN "odd" ELSE n.s]        \* the name of a mask is of no use
             ELSE LET p == ChannelProps(b, n.i)
                  IN IF p.s # "ok" THEN [s |-> p.s]
                     ELSE IF ~There(b, p.i, PtrSize(f.ver)) THEN no
                     ELSE IF U32(b, i) # w \/ U32(b, i + 4) # h THEN [s |-> "bad"]
                     ELSE Picture(b, Ptr(f.ver, b, p.i), f, w, h, 1, 0)

TextName == <<103, 105, 109, 112, 45, 116, 101, 120, 116, 45, 108, 97, 121, 101, 114>>
IsTextLayer(p) == \E k \in 1..Len(p.par): p.par[k][1] = TextName
TextOf(p) == p.par[CHOOSE k \in 1..Len(p.par): p.par[k][1] = TextName /\ \A j \in 1..(k - 1): p.par[j][1] # TextName][2]

(* a layer: [s, n, b, m, i, t, c, al, grp, path], its bounds on the canvas *)
NoLayer(s) == [s |-> s, n |-> <<>>, b |-> <<0, 0, 0, 0>>, m |-> {}, i |-> 0, t |-> {}, c |-> <<>>, al |-> 1, grp |-> 0, path |-> <<>>]
ReadLayer(b, i, f) ==
  IF ~There(b, i, 12) THEN NoLayer("no")
  ELSE LET w == U32(b, i) h == U32(b, i + 4) ty == U32(b, i + 8)
       IN IF w > 1000000000 \/ h > 1000000000 THEN NoLayer("odd")
          ELSE IF ty \div 2 # f.base THEN NoLayer("bad")
          ELSE LET nm == Str(b, i + 12)
               IN IF nm.s # "ok" THEN NoLayer(nm.s)
                  ELSE LET p == TLCEval(LayerProps(b, nm.i, f.base, NoProps))
                       IN IF p.s # "ok" THEN NoLayer(p.s)
                          ELSE IF ~There(b, p.i, 2 * PtrSize(f.ver)) THEN NoLayer("no")
                          ELSE LET hp == Ptr(f.ver, b, p.i) mp == Ptr(f.ver, b, p.i + PtrSize(f.ver))
                                   c == TLCEval(IF p.grp = 1 THEN [s |-> IF hp = BIG THEN "odd" ELSE "ok", k |-> "grp", l |-> <<>>] ELSE Picture(b, hp, f, w, h, f.base, ty % 2))
                                   t == IF IsTextLayer(p) THEN LET x == TLCEval(TextRead(TextOf(p))) IN [s |-> Worst({c.s, x.s}), k |-> "txt", c |-> c, d |-> x.v] ELSE c
                                   m == IF mp = 0 THEN t
                                        ELSE LET mk == TLCEval(MaskAtPos(b, mp, f, w, h))
                                             IN IF mk.s # "ok" THEN [s |-> Worst({mk.s, t.s})]
                                                ELSE [s |-> t.s, k |-> "msk", c |-> t, mc |-> mk]
                               IN IF m.s # "ok" THEN NoLayer(m.s)
                                  ELSE [s |-> "ok", n |-> nm.v, b |-> <<p.x, p.y, p.x + w, p.y + h>>, m |-> p.m, i |-> p.hid,
                                        t |-> p.t, c |-> m, al |-> ty % 2, grp |-> p.grp, path |-> p.path]

RECURSIVE LayerPtrs(_, _, _, _)
LayerPtrs(b, i, ver, ps) ==
  IF ~There(b, i, PtrSize(ver)) THEN [s |-> "no", v |-> ps]
  ELSE LET p == Ptr(ver, b, i) IN IF p = 0 THEN [s |-> "ok", v |-> ps] ELSE LayerPtrs(b, i + PtrSize(ver), ver, Append(ps, p))

(* ---- the tree ---- *)
(* every layer without a path of its own is the next one of the root *)
RECURSIVE Paths(_, _)
Paths(ls, n) ==
  IF ls = <<>> THEN <<>>
  ELSE IF ls[1].path = <<>> THEN <<[ls[1] EXCEPT !.path = <<Be32(n)>>]>> \o Paths(Tail(ls), n + 1)
  ELSE <<ls[1]>> \o Paths(Tail(ls), n)
PathFront(p) == SubSeq(p, 1, Len(p) - 1)
(* the group a layer belongs to: 0 the root, -1 none before it *)
ParentOf(ls, i) ==
  IF Len(ls[i].path) = 1 THEN 0
  ELSE LET c == {j \in 1..(i - 1): ls[j].grp = 1 /\ ls[j].path = PathFront(ls[i].path)}
       IN IF c = {} THEN -1 ELSE CHOOSE j \in c: \A k \in c: k <= j
RECURSIVE Assemble(_, _, _)
RECURSIVE WithKids(_, _)
WithKids(c, ks) ==
  IF c.k = "grp" THEN [c EXCEPT !.l = ks] ELSE IF c.k \in {"msk", "txt"} THEN [c EXCEPT !.c = WithKids(c.c, ks)] ELSE c
Assemble(ls, par, g) ==          \* the layers of group g, relative to it
  LET is == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k: par[k] = g)
      ox == IF g = 0 THEN 0 ELSE ls[g].b[1] oy == IF g = 0 THEN 0 ELSE ls[g].b[2]
  IN [k \in 1..Len(is) |->
       LET y == ls[is[k]] bb == y.b
       IN [n |-> y.n, m |-> y.m, i |-> y.i, t |-> y.t, b |-> <<bb[1] - ox, bb[2] - oy, bb[3] - ox, bb[4] - oy>>,
           c |-> IF y.grp = 1 THEN WithKids(y.c, Assemble(ls, par, is[k])) ELSE y.c]]

(* what of a layer lies within the canvas, in its place *)
RECURSIVE XCrop(_, _), XCropC(_, _)
XCropC(c, r) ==
  CASE c.k = "grp" -> [c EXCEPT !.l = [j \in 1..Len(c.l) |-> LET s == XCrop(c.l[j], r) IN [s EXCEPT !.b = <<@[1] - r[1], @[2] - r[2], @[3] - r[1], @[4] - r[2]>>]]]
    [] c.k = "msk" -> [c EXCEPT !.c = XCropC(@, r), !.mc = XCropC(@, r)]
    [] c.k = "txt" -> [c EXCEPT !.c = XCropC(@, r)]
    [] c.k = "win" -> [c EXCEPT !.dx = @ + r[1], !.dy = @ + r[2]]
    [] OTHER -> [k |-> "win", c |-> c, dx |-> r[1], dy |-> r[2]]
XCrop(ly, r) ==
  LET bb == Meet(ly.b, r)
  IN IF EmptyB(bb) THEN [ly EXCEPT !.b = <<0, 0, 0, 0>>]
     ELSE IF bb = ly.b THEN ly
     ELSE [ly EXCEPT !.b = bb, !.c = XCropC(ly.c, <<bb[1] - ly.b[1], bb[2] - ly.b[2], bb[3] - ly.b[1], bb[4] - ly.b[2]>>)]
Clipped(ly, cv) == IF EmptyB(ly.b) \/ Meet(ly.b, cv) = ly.b THEN ly ELSE XCrop(ly, cv)

(* ---- a whole file: [s, cs, w, h, base, pal, l] ---- *)
(* s: what decoding it must come to; cs: reading its configuration           *)
File0 == [s |-> "no", cs |-> "no", ver |-> 0, w |-> 0, h |-> 0, base |-> 0, pal |-> <<>>, comp |-> 0, l |-> <<>>]
ReadFile(b) ==
  IF ~There(b, 0, 14) THEN File0
  ELSE IF Cut(b, 0, 9) # Magic THEN File0
  ELSE IF Cut(b, 9, 4) \notin Versions THEN [File0 EXCEPT !.s = "bad", !.cs = "bad"]
  ELSE IF U8(b, 13) # 0 THEN [File0 EXCEPT !.s = "bad", !.cs = "bad"]
  ELSE LET ver == VersionOf(Cut(b, 9, 4)) hl == IF Precise(ver) THEN 30 ELSE 26
       IN IF ~There(b, 0, hl) THEN File0
          ELSE LET w == U32(b, 14) h == U32(b, 18) base == U32(b, 22)
                   f0 == [File0 EXCEPT !.ver = ver, !.w = w, !.h = h, !.base = base]
               IN IF base > 2 THEN [f0 EXCEPT !.s = "bad", !.cs = "bad"]
                  ELSE IF w > 1000000000 \/ h > 1000000000 THEN [f0 EXCEPT !.s = "odd", !.cs = "odd"]
                  ELSE LET p == ImageProps(b, hl, base, [s |-> "ok", i |-> 0, pal |-> <<>>, comp |-> 0])
                           f == [f0 EXCEPT !.cs = IF base = 2 THEN p.s ELSE "ok", !.pal = p.pal, !.comp = p.comp]
                       IN IF p.s # "ok" THEN [f EXCEPT !.s = p.s]
                          ELSE LET q == LayerPtrs(b, p.i, ver, <<>>)
                               IN IF q.s # "ok" THEN [f EXCEPT !.s = q.s]
                                  ELSE LET ls0 == TLCEval([k \in 1..Len(q.v) |-> ReadLayer(b, q.v[k], f)])
                                           st == Worst({ls0[k].s: k \in 1..Len(ls0)})
                                       IN IF st # "ok" THEN [f EXCEPT !.s = st]
                                          ELSE IF \E k \in 1..(Len(ls0) - 1): ls0[k].al = 0 THEN f
                                          ELSE LET ls == TLCEval(Paths(ls0, 0))
                                                   par == TLCEval([k \in 1..Len(ls) |-> ParentOf(ls, k)])
                                               IN IF \E k \in 1..Len(ls): par[k] = -1 THEN f
                                                  ELSE IF \E j, k \in 1..Len(ls): j < k /\ ls[j].grp = 1 /\ ls[k].grp = 1 /\ ls[j].path = ls[k].path
                                                  THEN [f EXCEPT !.s = "bad"]
                                                  ELSE LET t == TLCEval(Assemble(ls, par, 0))
                                                       IN [f EXCEPT !.s = "ok", !.l = [k \in 1..Len(t) |->
                                                            Clipped(IF k = Len(t) /\ t[k].m \cap {"Normal", "Dissolve"} = {} THEN [t[k] EXCEPT !.m = {"Normal"}] ELSE t[k],
                                                                    <<0, 0, w, h>>)]]

(* ---- what was decoded is what the file says ---- *)
(* observed layers: [n, nb (bytes of the name), b, m, i, t, k, l, pts, mp]   *)
(* styled text as it was observed *)
Seen8(v) == IF \A k \in 1..3: v[k] >= 0 /\ v[k] % 257 = 0 THEN [k \in 1..3 |-> v[k] \div 257] ELSE v
StyleOf(o) == [f |-> o.fb, z |-> o.z, fg |-> IF o.fg[4] # 65535 THEN o.fg ELSE Seen8(o.fg), bg |-> IF o.bg[4] = 0 THEN <<>> ELSE Seen8(o.bg),
               ls |-> o.ls, r |-> o.r, b |-> o.bold, i |-> o.ital, u |-> o.und, st |-> o.str]
TextShown(d, s) == TextRuns([k \in 1..Len(s) |-> <<s[k].db, StyleOf(s[k])>>], 1, <<>>) = d
RECURSIVE ContentShown(_, _, _, _, _), TreeShown(_, _, _)
(* dx, dy: where the observed part starts in the content *)
PtsShown(b, c, o) ==
  LET px == IF c.k = "win" THEN c.c ELSE c
      dx == IF c.k = "win" THEN c.dx ELSE 0 dy == IF c.k = "win" THEN c.dy ELSE 0
  IN /\ (px.w = 0 \/ px.h = 0) \/ Len(o) > 0
     /\ \A p \in 1..Len(o): Same(<<o[p][3], o[p][4], o[p][5], o[p][6]>>, XPixel(b, px, o[p][1] + dx, o[p][2] + dy))
MaskShown(b, c, mp) ==
  LET px == IF c.k = "win" THEN c.c ELSE c
      dx == IF c.k = "win" THEN c.dx ELSE 0 dy == IF c.k = "win" THEN c.dy ELSE 0
  IN /\ (px.w = 0 \/ px.h = 0) \/ Len(mp) > 0
     /\ \A p \in 1..Len(mp): mp[p][3] = Raw(b, px, mp[p][1] + dx, mp[p][2] + dy, 1)
ContentShown(b, c, ob, msk, txt) ==
  CASE c.k = "msk" -> ContentShown(b, c.c, ob, 1, txt) /\ MaskShown(b, c.mc, ob.mp)
    [] c.k = "txt" -> ContentShown(b, c.c, ob, msk, 1) /\ (c.c.k # "grp" => TextShown(c.d, ob.s))
    [] c.k = "grp" -> TreeShown(b, c.l, ob.l) /\ (txt = 0 => ob.k = IF msk = 1 THEN "gmsk" ELSE "grp")
    [] OTHER -> /\ PtsShown(b, c, ob.pts)
                /\ ob.k = IF txt = 1 THEN (IF msk = 1 THEN "tmsk" ELSE "txt") ELSE (IF msk = 1 THEN "msk" ELSE "px")
TreeShown(b, ls, obs) ==
  /\ Len(obs) = Len(ls)
  /\ \A k \in 1..Len(ls):
       LET y == ls[k] ob == obs[k]
       IN /\ ob.nb = y.n /\ ob.i = y.i /\ ob.t \in y.t /\ ob.m \in y.m
          /\ SameB(ob.b, y.b)
          /\ EmptyB(y.b) \/ ContentShown(b, y.c, ob, 0, 0)

=============================================================================
