------------------------------- MODULE MCXcf -------------------------------
(* A writer of XCF files: documents - a tree of layers with their             *)
(* attributes, masks and pixels - are built step by step, laid out as bytes, *)
(* and read again with ReadFile, which must give the document back; what is  *)
(* cut short, names parents that do not exist, or contradicts itself, must   *)
(* be refused.  C16, C18, C19, C20, C21, C30.                                                  *)
EXTENDS XcfForm, Json, FiniteSetsExt

CONSTANTS VERS, BASES, SIZES, PROPSETS, NLAYERS, NPROPS, MASKS, PLACES, COMPS, FAULTY, STEP, EMIT, LIES
(* PROPSETS: names of sets of layer properties; FAULTY: may one thing be wrong; LIES: ways in which files contradict themselves *)

VARIABLES doc, wrong, done
(* doc: [ver, base, comp, pr (image properties), l (layers in the file's order)] *)
(* SIZES: 100 w + h *)
(* a layer: [g (index of its group, 0 the root), kind, w, h, x, y, al, ps, mask, path (is it written), far (room between)] *)
vars == <<doc, wrong, done>>

CW == 5
CH == 4
Pal3 == <<<<10, 20, 30>>, <<255, 255, 255>>, <<0, 0, 1>>>>
Init == \E v \in VERS, base \in BASES, comp \in COMPS:
  doc = [ver |-> v, base |-> base, comp |-> comp, pr |-> <<>>, l |-> <<>>] /\ wrong = "" /\ done = FALSE

(* ---- building a document ---- *)
Places == <<<<0, 0>>, <<1, 2>>, <<-1, 3>>, <<9, 0>>>>
Kids(g) == SelectSeq([k \in 1..Len(doc.l) |-> k], LAMBDA k: doc.l[k].g = g)
Groups == {0} \cup {k \in 1..Len(doc.l): doc.l[k].kind = "grp"}
AddProp == ~done /\ Len(doc.pr) < NPROPS /\ doc.l = <<>> /\ \E p \in {"res", "unknown", "par", "guides", "unit"}:
  doc' = [doc EXCEPT !.pr = Append(@, p)] /\ UNCHANGED <<wrong, done>>
AddLayer == ~done /\ Len(doc.l) < NLAYERS /\
  \E g \in Groups, kind \in {"px", "grp"}, sz \in SIZES, ps \in PROPSETS, mask \in MASKS, own \in BOOLEAN, al \in {0, 1}, p \in PLACES:
    /\ (g # 0 \/ kind = "grp") => ~(own) /\ al = 1
    /\ al = 0 => FAULTY \/ Len(doc.l) = NLAYERS - 1
    /\ doc' = [doc EXCEPT !.l = Append(@, [g |-> g, kind |-> kind, w |-> sz \div 100, h |-> sz % 100, x |-> Places[p][1], y |-> Places[p][2], al |-> al,
                                          ps |-> ps, mask |-> mask, own |-> own, up |-> ""])]
    /\ UNCHANGED <<wrong, done>>
(* something that must not be accepted *)
Spoil == ~done /\ FAULTY /\ wrong = "" /\ doc.l # <<>> /\ \E w \in {"noparent", "notgroup", "later"}:
  /\ wrong' = w
  /\ \E k \in 1..Len(doc.l):
       /\ doc.l[k].kind = "px"
       /\ w = "notgroup" => \E j \in 1..(k - 1): doc.l[j].kind = "px" /\ ~doc.l[j].own /\ doc.l[j].g = 0
       /\ w = "later" => \E j \in (k + 1)..Len(doc.l): doc.l[j].kind = "grp" /\ doc.l[j].g = 0
       /\ doc' = [doc EXCEPT !.l[k].up = w, !.l[k].own = FALSE]
  /\ UNCHANGED done
End == ~done /\ doc.l # <<>> /\ done' = TRUE /\ UNCHANGED <<doc, wrong>>

(* ---- the bytes ---- *)
Px(k, x, y, c) == IF doc.base = 2 /\ c = 1 THEN (x + 2 * y + k) % 3 ELSE (37 * x + 91 * y + 60 * c + 11 * k) % 256
MaskPx(k, x, y) == (200 + 19 * x + 7 * y + k) % 256
PropB(t, c) == Be32(t) \o Be32(Len(c)) \o c
ImagePropB(p) ==
  CASE p = "res" -> PropB(19, <<66, 144, 0, 0, 66, 144, 0, 0>>)
    [] p = "unknown" -> <<128, 0, 0, 1>> \o Be32(3) \o <<1, 2, 3>>
    [] p = "par" -> PropB(21, Be32(2) \o <<120, 0>> \o Be32(1) \o Be32(2) \o <<0, 255>>)
    [] p = "guides" -> PropB(18, <<0, 0, 0, 1, 2>>)
    [] p = "unit" -> PropB(22, Be32(1))
(* sets of properties: what they say, [b, i, t, m] *)
PropSet(p) ==
  CASE p = "none" -> [b |-> <<>>, i |-> 0, t |-> 0, m |-> 0]
    [] p = "dim" -> [b |-> PropB(6, Be32(100)) \o PropB(8, Be32(1)), i |-> 0, t |-> 155, m |-> 0]
    [] p = "hid" -> [b |-> PropB(8, Be32(0)) \o PropB(7, Be32(3)), i |-> 1, t |-> 0, m |-> 3]
    [] p = "float" -> [b |-> PropB(7, Be32(60)) \o PropB(33, <<62, 76, 204, 205>>) \o PropB(20, Be32(7)), i |-> 0, t |-> 204, m |-> 60]
    [] p = "twice" -> [b |-> PropB(6, Be32(7)) \o PropB(77, <<>>) \o PropB(6, Be32(255)) \o PropB(7, Be32(5)) \o PropB(7, Be32(16)), i |-> 0, t |-> 0, m |-> 16]
Names == <<<<>>, <<97>>, <<195, 169, 60>>, <<98, 99>>>>
NameOf(k) == Names[((k - 1) % 4) + 1]
(* the path of a layer, as numbers *)
IndexIn(k) == CHOOSE n \in 1..Len(doc.l): Kids(doc.l[k].g)[n] = k
RECURSIVE PathNums(_)
PathNums(k) ==
  LET y == doc.l[k]
  IN CASE y.up = "noparent" -> <<50, 0>>
       [] y.up = "notgroup" -> Append(PathNums(CHOOSE j \in 1..(k - 1): doc.l[j].kind = "px" /\ ~doc.l[j].own /\ doc.l[j].g = 0), 3)
       [] y.up = "later" -> Append(PathNums(CHOOSE j \in (k + 1)..Len(doc.l): doc.l[j].kind = "grp" /\ doc.l[j].g = 0), 3)
       [] OTHER -> IF y.g = 0 THEN <<20 + IndexIn(k)>> ELSE Append(PathNums(y.g), IndexIn(k) - 1)
(* offsets are counted from the canvas *)
RECURSIVE AbsX(_), AbsY(_)
AbsX(k) == IF k = 0 THEN 0 ELSE doc.l[k].x + AbsX(doc.l[k].g)
AbsY(k) == IF k = 0 THEN 0 ELSE doc.l[k].y + AbsY(doc.l[k].g)
Signed32(v) == IF v >= 0 THEN Be32(v) ELSE <<255, 255, 255, 256 + v>>
LayerPropB(k) ==
  LET y == doc.l[k]
      offs == PropB(15, Signed32(AbsX(k)) \o Signed32(AbsY(k)))
      path == IF y.own THEN <<>> ELSE PropB(30, FlattenSeq([n \in 1..Len(PathNums(k)) |-> Be32(PathNums(k)[n])]))
      grp == IF y.kind = "grp" THEN PropB(29, <<>>) ELSE <<>>
  IN IF k % 2 = 0 THEN offs \o path \o grp \o PropSet(y.ps).b \o PropB(0, <<>>)
     ELSE PropSet(y.ps).b \o grp \o path \o offs \o PropB(0, <<>>)

PS == PtrSize(doc.ver)
Zeros(n) == [j \in 1..n |-> 0]
(* blocks [b, f]: f the places <<offset, block>> of its pointers *)
Blk(b, f) == [b |-> b, f |-> f]
(* run-length coding: long and short operations in turn *)
RECURSIVE Code(_, _)
Code(v, turn) ==
  IF v = <<>> THEN <<>>
  ELSE LET n == Len(v)
           same == CHOOSE m \in 1..n: (\A j \in 1..m: v[j] = v[1]) /\ (m = n \/ v[m + 1] # v[1])
       IN IF same > 1 /\ same <= RS THEN <<same - 1, v[1]>> \o Code(SubSeq(v, same + 1, n), turn + 1)
          ELSE IF same > 1 THEN <<RS>> \o Be16(same) \o <<v[1]>> \o Code(SubSeq(v, same + 1, n), turn + 1)
          ELSE IF n > RS \/ turn % 3 = 2 THEN <<RS + 1>> \o Be16(n) \o v
          ELSE IF turn % 3 = 1 THEN <<0, v[1]>> \o Code(Tail(v), turn + 1)
          ELSE LET m == IF n > 2 THEN 2 ELSE n IN <<2 * (RS + 1) - m>> \o SubSeq(v, 1, m) \o Code(SubSeq(v, m + 1, n), turn + 1)
TilesX(w) == (w + TILE - 1) \div TILE
NTiles(w, h) == TilesX(w) * TilesX(h)
TileBytes(w, h, nc, n, f(_, _, _)) ==
  LET tx == TILE * ((n - 1) % TilesX(w)) ty == TILE * ((n - 1) \div TilesX(w))
      tw == Min2(TILE, w - tx) th == Min2(TILE, h - ty)
      chan(c) == [j \in 1..(tw * th) |-> f(tx + ((j - 1) % tw), ty + ((j - 1) \div tw), c)]
  IN IF doc.comp = 0 THEN [j \in 1..(tw * th * nc) |-> f(tx + (((j - 1) \div nc) % tw), ty + (((j - 1) \div nc) \div tw), ((j - 1) % nc) + 1)]
     ELSE FlattenSeq([c \in 1..nc |-> Code(chan(c), c + n)])
(* hierarchy, level, tiles, from block number at *)
PicBlocks(w, h, nc, at, f(_, _, _)) ==
  LET t == NTiles(w, h)
  IN <<Blk(Be32(w) \o Be32(h) \o Be32(nc) \o Zeros(2 * PS), <<<<12, at + 1>>>>),
       Blk(Be32(w) \o Be32(h) \o Zeros(t * PS) \o Be32(0), [n \in 1..t |-> <<8 + (n - 1) * PS, at + 1 + n>>])>>
     \o [n \in 1..t |-> Blk(TileBytes(w, h, nc, n, f), <<>>)]
PicSize(k) == 2 + NTiles(doc.l[k].w, doc.l[k].h)
BlocksOf(k) == 1 + PicSize(k) + IF doc.l[k].mask THEN 1 + PicSize(k) ELSE 0
RECURSIVE StartOf(_)
StartOf(k) == IF k = 1 THEN 2 ELSE StartOf(k - 1) + BlocksOf(k - 1)
LayerBlocks(k) ==
  LET y == doc.l[k] at == StartOf(k)
      str == IF NameOf(k) = <<>> /\ k % 2 = 1 THEN Be32(0) ELSE Be32(Len(NameOf(k)) + 1) \o NameOf(k) \o <<0>>
      hd == Be32(y.w) \o Be32(y.h) \o Be32(2 * doc.base + y.al) \o str \o LayerPropB(k)
      nc == Channels(doc.base, y.al)
  IN <<Blk(hd \o Zeros(2 * PS), <<<<Len(hd), at + 1>>>> \o IF y.mask THEN <<<<Len(hd) + PS, at + 1 + PicSize(k)>>>> ELSE <<>>)>>
     \o PicBlocks(y.w, y.h, nc, at + 1, LAMBDA x, yy, c: Px(k, x, yy, c))
     \o IF ~y.mask THEN <<>>
        ELSE LET mh == Be32(y.w) \o Be32(y.h) \o Be32(2) \o <<109, 0>> \o PropB(6, Be32(9)) \o PropB(0, <<>>)
             IN <<Blk(mh \o Zeros(PS), <<<<Len(mh), at + 2 + PicSize(k)>>>>)>>
                \o PicBlocks(y.w, y.h, 1, at + 2 + PicSize(k), LAMBDA x, yy, c: MaskPx(k, x, yy))
VerB == IF doc.ver = 0 THEN <<102, 105, 108, 101>> ELSE <<118, 48, 48 + (doc.ver \div 10), 48 + (doc.ver % 10)>>
Header ==
  LET props == (IF doc.base = 2 THEN PropB(1, Be32(3) \o Pal3[1] \o Pal3[2] \o Pal3[3]) ELSE <<>>)
               \o (IF doc.comp = 1 \/ doc.ver % 2 = 0 THEN PropB(17, <<doc.comp>>) ELSE <<>>)
               \o FlattenSeq([n \in 1..Len(doc.pr) |-> ImagePropB(doc.pr[n])]) \o PropB(0, <<>>)
      hd == Magic \o VerB \o <<0>> \o Be32(CW) \o Be32(CH) \o Be32(doc.base) \o (IF Precise(doc.ver) THEN Be32(150) ELSE <<>>) \o props
      n == Len(doc.l)
  IN Blk(hd \o Zeros((n + 1) * PS) \o Zeros(PS), [k \in 1..n |-> <<Len(hd) + (k - 1) * PS, StartOf(k)>>])
RECURSIVE Starts(_, _, _)
Starts(bs, k, at) == IF k > Len(bs) THEN <<>> ELSE <<at>> \o Starts(bs, k + 1, at + Len(bs[k].b))
PtrB(v) == IF PS = 8 THEN Zeros(4) \o Be32(v) ELSE Be32(v)
RECURSIVE Patched(_, _, _, _)
Patched(b, f, n, at) ==
  IF n > Len(f) THEN b
  ELSE Patched(SubSeq(b, 1, f[n][1]) \o PtrB(at[f[n][2]]) \o SubSeq(b, f[n][1] + PS + 1, Len(b)), f, n + 1, at)
(* the last block of a layer that is read: a group has no picture of its own *)
LastOf(k) == StartOf(k) + IF doc.l[k].mask \/ doc.l[k].kind = "px" THEN BlocksOf(k) - 1 ELSE 0
FileBlocks == <<Header>> \o FlattenSeq([k \in 1..Len(doc.l) |-> LayerBlocks(k)])
Needed ==                     \* where the last byte that is read is
  LET bs == TLCEval(FileBlocks) at == TLCEval(Starts(bs, 1, 0))
  IN Max({at[LastOf(k)] + Len(bs[LastOf(k)].b): k \in 1..Len(doc.l)})
FileBytes ==
  LET bs == TLCEval(FileBlocks)
      at == TLCEval(Starts(bs, 1, 0))
  IN FlattenSeq([n \in 1..Len(bs) |-> Patched(bs[n].b, bs[n].f, 1, at)])

(* ---- what reading them must come to ---- *)
Refused == \/ wrong # "" /\ \E k \in 1..Len(doc.l): doc.l[k].up # ""
           \/ \E k \in 1..(Len(doc.l) - 1): doc.l[k].al = 0
ColourOf(k, x, y) ==
  CASE doc.base = 0 -> <<Px(k, x, y, 1) * E, Px(k, x, y, 2) * E, Px(k, x, y, 3) * E, (IF doc.l[k].al = 1 THEN Px(k, x, y, 4) ELSE B) * E>>
    [] doc.base = 1 -> <<Px(k, x, y, 1) * E, Px(k, x, y, 1) * E, Px(k, x, y, 1) * E, (IF doc.l[k].al = 1 THEN Px(k, x, y, 2) ELSE B) * E>>
    [] doc.base = 2 -> LET q == Pal3[Px(k, x, y, 1) + 1] IN <<q[1] * E, q[2] * E, q[3] * E, (IF doc.l[k].al = 1 THEN Px(k, x, y, 2) ELSE B) * E>>
Strip(c) == IF c.k = "msk" THEN c.c ELSE c
RECURSIVE Read(_, _, _, _), ReadAll(_, _, _)
(* the picture c, of what was read, shows layer k from <<dx, dy>> on *)
Shows(b, c, k, bb) ==
  LET px == IF c.k = "win" THEN c.c ELSE c
      dx == IF c.k = "win" THEN c.dx ELSE 0 dy == IF c.k = "win" THEN c.dy ELSE 0
  IN \A x \in 0..(bb[3] - bb[1] - 1), y \in 0..(bb[4] - bb[2] - 1):
       Same(XPixel(b, px, x + dx, y + dy), ColourOf(k, x + bb[1] - AbsX(k), y + bb[2] - AbsY(k)))
MaskShows(b, c, k, bb) ==
  LET px == IF c.k = "win" THEN c.c ELSE c
      dx == IF c.k = "win" THEN c.dx ELSE 0 dy == IF c.k = "win" THEN c.dy ELSE 0
  IN \A x \in 0..(bb[3] - bb[1] - 1), y \in 0..(bb[4] - bb[2] - 1):
       Raw(b, px, x + dx, y + dy, 1) = MaskPx(k, x + bb[1] - AbsX(k), y + bb[2] - AbsY(k))
(* y, read, is layer k, its place being counted from <<ox, oy>> of the canvas *)
Read(b, y, k, o) ==
  LET d == doc.l[k]
      whole == <<AbsX(k), AbsY(k), AbsX(k) + d.w, AbsY(k) + d.h>>
      bb == IF d.g = 0 THEN Meet(whole, <<0, 0, CW, CH>>) ELSE whole          \* only those of the root are clipped
      m == XModes(doc.base, PropSet(d.ps).m)
      last == d.g = 0 /\ Kids(0)[Len(Kids(0))] = k
  IN /\ y.n = NameOf(k) /\ y.i = PropSet(d.ps).i /\ PropSet(d.ps).t \in y.t
     /\ y.m = IF last /\ m \cap {"Normal", "Dissolve"} = {} THEN {"Normal"} ELSE m
     /\ IF EmptyB(bb) THEN EmptyB(y.b) ELSE y.b = <<bb[1] - o[1], bb[2] - o[2], bb[3] - o[1], bb[4] - o[2]>>
     /\ (d.mask /\ ~EmptyB(bb)) => y.c.k = "msk" /\ MaskShows(b, y.c.mc, k, bb)
     /\ ~d.mask => y.c.k # "msk"
     /\ IF d.kind = "px" THEN ~EmptyB(bb) => Shows(b, Strip(y.c), k, bb)
        ELSE /\ Strip(y.c).k = "grp"
             /\ (bb = whole) => ReadAll(b, Strip(y.c).l, k)
ReadAll(b, ls, g) ==
  /\ Len(ls) = Len(Kids(g))
  /\ \A n \in 1..Len(ls): Read(b, ls[n], Kids(g)[n], <<AbsX(g), AbsY(g)>>)

Faithful == done =>
  LET b == TLCEval(FileBytes) f == TLCEval(ReadFile(b))
  IN IF Refused THEN f.s = "no" /\ f.cs = "ok"
     ELSE /\ f.s = "ok" /\ f.cs = "ok" /\ f.w = CW /\ f.h = CH /\ f.base = doc.base /\ f.pal = (IF doc.base = 2 THEN Pal3 ELSE <<>>)
          /\ ReadAll(b, f.l, 0)
(* ---- files that contradict themselves, or state what the format has not ---- *)
With(b, i, v) == SubSeq(b, 1, i - 1) \o v \o SubSeq(b, i + Len(v), Len(b))
Lie(bs, n, i, v) == [bs EXCEPT ![n].b = With(@, i, v)]
Applies(lie) ==
  LET y == doc.l[1]
  IN CASE lie \in {"version", "zero", "base", "type"} -> TRUE
       [] lie \in {"bpp", "width", "level", "end"} -> y.kind = "px"
       [] lie = "mask" -> y.mask
       [] lie = "name" -> Len(doc.l) > 1
       [] lie = "index" -> y.kind = "px" /\ doc.base = 2 /\ doc.comp = 0
       [] lie = "opacity" -> y.ps = "dim"
LieBytes(lie) ==
  LET bs == TLCEval(FileBlocks) y == doc.l[1] at == StartOf(1)
      new == CASE lie = "version" -> Lie(bs, 1, 11, <<57, 57>>)
               [] lie = "zero" -> Lie(bs, 1, 14, <<1>>)
               [] lie = "base" -> Lie(bs, 1, 26, <<3>>)
               [] lie = "type" -> Lie(bs, at, 12, <<2 * ((doc.base + 1) % 3) + y.al>>)
               [] lie = "width" -> Lie(bs, at + 1, 4, <<y.w + 1>>)
               [] lie = "bpp" -> Lie(bs, at + 1, 12, <<(Channels(doc.base, y.al) % 4) + 1>>)
               [] lie = "level" -> Lie(bs, at + 2, 8, <<y.h + 2>>)
               [] lie = "end" -> Lie(bs, at + 2, Len(bs[at + 2].b), <<1>>)
               [] lie = "mask" -> Lie(bs, at + 1 + PicSize(1), 8, <<y.h + 1>>)
               [] lie = "name" -> Lie(bs, StartOf(2), 16 + Len(NameOf(2)) + 1, <<1>>)
               [] lie = "index" -> Lie(bs, at + 3, 1, <<3>>)
               [] lie = "opacity" -> Lie(bs, at, (CHOOSE n \in 1..Len(bs[at].b): n > 11 /\ SubSeq(bs[at].b, n - 11, n) = PropB(6, Be32(100))) - 1, <<1>>)
      pos == TLCEval(Starts(new, 1, 0))
  IN FlattenSeq([n \in 1..Len(new) |-> Patched(new[n].b, new[n].f, 1, pos)])
Caught == (done /\ ~Refused) => \A lie \in LIES: Applies(lie) =>
  LET f == TLCEval(ReadFile(LieBytes(lie)))
  IN f.s = "bad" /\ f.cs = IF lie \in {"version", "zero", "base"} THEN "bad" ELSE "ok"
(* what follows the last byte does not matter, and none of the data may be missing *)
CutRefused == (done /\ ~Refused) =>
  LET b == TLCEval(FileBytes) n == Needed
  IN /\ ReadFile(b \o <<1>>).s = "ok"
     /\ \A k \in 0..(n - 2): (k + Len(doc.l)) % STEP = 0 => ReadFile(SubSeq(b, 1, k)).s # "ok"
     /\ ReadFile(SubSeq(b, 1, n - 1)).s = "no"
     /\ ReadFile(SubSeq(b, 1, n)).s = "ok"
(* a file laid out without gaps is nothing but its parts; one byte more, or    *)
(* less, or a pointer to another's part, and it is not                        *)
SmallTileData == 1000        \* the model's writer is not a thrifty one
Plainly == done /\ ~Refused /\ ~Wide(doc.ver) /\ \A k \in 1..Len(doc.l): doc.l[k].ps # "twice"
Formed == Plainly =>
  LET b == TLCEval(FileBytes) n == Len(Header.b) - 2 * PS
  IN /\ WellFormed(b)
     /\ ~WellFormed(b \o <<0>>)
     /\ ~WellFormed(SubSeq(b, 1, Len(b) - 1))
     /\ ~WellFormed(SubSeq(b, 1, n) \o Zeros(PS - 1) \o <<1>> \o SubSeq(b, n + PS + 1, Len(b)))       \* the end of the list of layers
     /\ ~WellFormed(SubSeq(b, 1, n + PS) \o Zeros(PS - 1) \o <<1>> \o SubSeq(b, n + 2 * PS + 1, Len(b)))        \* ... of channels
     /\ Len(doc.l) > 1 => ~WellFormed(SubSeq(b, 1, n - PS) \o SubSeq(b, n - 2 * PS + 1, n - PS) \o SubSeq(b, n + 1, Len(b)))   \* a layer twice
Emit == /\ EMIT /\ done /\ wrong # "end"
        /\ PrintT(<<"BEH", ToJson([b |-> FileBytes, s |-> IF Refused THEN "no" ELSE "ok"])>>)
        /\ wrong' = "end" /\ UNCHANGED <<doc, done>>
Tell == /\ EMIT /\ done /\ wrong = "end" /\ ~Refused
        /\ \E lie \in LIES:
             /\ Applies(lie)
             /\ PrintT(<<"BEH", ToJson([b |-> LieBytes(lie), s |-> lie])>>)
             /\ wrong' = "told" /\ UNCHANGED <<doc, done>>
Next == Tell \/ AddProp \/ AddLayer \/ Spoil \/ End \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
