------------------------------ MODULE MCOraImg ------------------------------
(* Every small layered picture (one row high), written as a document and     *)
(* read back; and read with the canvas cut down, to see that clipping keeps  *)
(* the picture.  With EMIT the pictures are written out for the real encoder *)
(* and decoder.                                                              *)
EXTENDS Ora, Json
CONSTANTS STEPS, MODES, WRAPM, CONTS, EMIT, WIDE
NONE == "none"

K == <<0, 0, 0, 1>>
W == <<1, 1, 1, 1>>
R == <<1, 0, 0, 1>>
T == <<0, 0, 0, 0>>
px(p) == [k |-> "px", f |-> "nrgba", w |-> Len(p), h |-> 1, p |-> p]
Content(n) ==
  CASE n = "wt" -> px(<<W, T>>)
    [] n = "rkw" -> px(<<R, K, W>>)
    [] n = "mk" -> [k |-> "msk", c |-> px(<<W, R>>), mb |-> <<0, 0, 2, 1>>, mp |-> <<1, 0>>]
    [] n = "tx" -> [k |-> "txt", c |-> px(<<R, W>>)]
Flat(c) ==    \* files hold pictures, not masks or text
  CASE c.k = "msk" -> px([i \in 1..c.c.w |-> ShowAt(c, i - 1, 0)])
    [] c.k = "txt" -> c.c
    [] OTHER -> c
RECURSIVE FlatAll(_)
FlatAll(ls) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.c = IF @.k = "grp" THEN [@ EXCEPT !.l = FlatAll(@)] ELSE Flat(@)]]
Width(n) == IF n = "rkw" THEN 3 ELSE 2

Offs == IF WIDE THEN {-1, 0, 1, 2} ELSE {-1, 0, 2}
VARIABLES img, steps
Init == img = <<>> /\ steps = 0
Push == \E n \in CONTS, o \in Offs, m \in MODES, ht \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}:
          img' = <<[n |-> n, b |-> <<o, 0, o + Width(n), 1>>, m |-> m, i |-> ht[1], t |-> ht[2], c |-> Content(n)]>> \o img
Wrap == /\ Len(img) > 0
        /\ Union(img)[1] >= 0
        /\ \E o \in Offs, m \in WRAPM, ht \in {<<0, 0>>, <<0, 1>>}:
             img' = <<[n |-> "g", b |-> <<o, 0, o + Union(img)[3], 1>>, m |-> m, i |-> ht[1], t |-> ht[2],
                       c |-> [k |-> "grp", l |-> img]]>>
Next == \/ steps < STEPS /\ steps' = steps + 1 /\ (Push \/ Wrap)
        \/ EMIT /\ steps = STEPS /\ steps' = STEPS + 1 /\ img' = img /\ PrintT(<<"BEH", ToJson(img)>>)
Spec == Init /\ [][Next]_<<img, steps>>

F == FlatAll(img)
Doc == DocTokens(F)
Srcs == SourcesOf(F, 0)
Grp(ls) == [k |-> "grp", l |-> ls]

RoundTrip == Len(img) > 0 => /\ DocVerdict(Doc, Srcs) = "yes"
                             /\ DecodeDoc(Doc, Srcs) = Written(F)
Idempotent == Written(Written(F)) = Written(F)
SourcesOnce == LET s == Sources(RootOf(Doc).k) IN \A i, j \in 1..Len(s): s[i] = s[j] => i = j
SamePicture == LET u == Union(F) IN
  \A x \in u[1]..(u[3] - 1): ShowAt(Grp(Written(F)), x - u[1], 0) = ShowAt(Grp(Held(F)), x, 0)

(* the same document with its canvas cut to w *)
Cut(w) == [Doc EXCEPT ![1].a[1] = NumA("w", w)]
(* and with everything moved by d *)
RECURSIVE MoveTop(_, _, _)
MoveTop(ts, d, depth) ==
  IF ts = <<>> THEN <<>>
  ELSE LET k == ts[1]
           n == IF k.t = "o" /\ depth = 2 THEN [k EXCEPT !.a[2].n = @ + d] ELSE k
       IN <<n>> \o MoveTop(Tail(ts), d, IF k.t = "o" THEN depth + 1 ELSE depth - 1)
RECURSIVE Observe(_)
Observe(ls) == [i \in 1..Len(ls) |->
  LET ly == ls[i]
  IN [n |-> ly.n, b |-> ly.b, m |-> ly.m, i |-> ly.i, t |-> ly.t, k |-> IF ly.c.k = "grp" THEN "grp" ELSE "px",
      l |-> IF ly.c.k = "grp" THEN Observe(ly.c.l) ELSE <<>>,
      pts |-> IF ly.c.k = "grp" THEN <<>> ELSE [u \in 1..(ly.b[3] - ly.b[1]) |-> <<u - 1, 0>> \o ShowAt(ly.c, u - 1, 0)]]]
ClipKeepsPicture ==
  Len(img) > 0 => \A w \in {1, 2, 4}: \A d \in {-2, 0, 1}:
    LET ts == MoveTop(Cut(w), d, 0)
        got == DecodeDoc(ts, Srcs)
    IN /\ \A x \in 0..(w - 1): ShowAt(Grp(got), x, 0) = ShowAt(Grp(Written(F)), x - d, 0)
       /\ StackShown(RootOf(ts).k, Observe(got), Srcs, CanvasOf(ts), 0, 0, 0, 0)
SaysItself == Len(img) > 0 => SameTree(Written(F), Observe(DecodeDoc(Doc, Srcs)))
=============================================================================
