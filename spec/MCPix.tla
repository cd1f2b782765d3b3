-------------------------------- MODULE MCPix ------------------------------
(* The storage scheme of the pixel images - one slice, windows given by an   *)
(* offset into it, the parent's stride and a rectangle - checked to refine   *)
(* the abstract array with shared views of Pix, on a small image with a      *)
(* negative origin.  With EMIT, histories are written out for replay.        *)
EXTENDS Pix, TLC, Json

CONSTANTS KIND, DEPTH, EMIT

Parent == <<-1, -2, 2, 0>>        \* 3 x 2
Vals == IF KIND = "rgb" THEN {<<0, 0, 1>>, <<1, 0, 0>>} ELSE {<<0, 1>>, <<1, 0>>}
Rects == {<<0, -2, 2, 0>>, <<-5, -1, 1, 3>>, <<0, -1, 1, 0>>, <<5, 5, 6, 6>>, <<-1, -2, 2, 0>>}
Pts == {<<x, y>>: x \in -2..2, y \in -3..0}

VARIABLES st, slice, wins, h
(* slice: the backing array; wins: per view [off, stride, rect] *)
vars == <<st, slice, wins, h>>

W0 == Parent[3] - Parent[1]
Init == /\ st = NewImg(KIND, Parent)
        /\ slice = [i \in 0..5 |-> ZeroPix(KIND)]
        /\ wins = <<[off |-> 0, stride |-> W0, rect |-> Parent]>>
        /\ h = <<>>

Offset(w, x, y) == w.off + (y - w.rect[2]) * w.stride + (x - w.rect[1])
ImplGet(w, x, y) == IF InB(x, y, w.rect) THEN slice[Offset(w, x, y)] ELSE ZeroPix(KIND)
Cnt == IF EMIT THEN Len(h) ELSE IF h = <<>> THEN 0 ELSE h[1]
LogN(r) == h' = IF EMIT THEN Append(h, r) ELSE <<Cnt + 1>>

PtsUsed == IF EMIT THEN {<<0, -1>>, <<-1, -2>>, <<1, -1>>, <<2, 0>>, <<1, -2>>} ELSE Pts
DoSet == \E v \in 1..Len(wins), p \in PtsUsed, val \in Vals:
   /\ st' = Put(st, v, p[1], p[2], val)
   /\ slice' = IF InB(p[1], p[2], wins[v].rect) THEN [slice EXCEPT ![Offset(wins[v], p[1], p[2])] = val] ELSE slice
   /\ UNCHANGED wins
   /\ LogN([a |-> "set", v |-> v, x |-> p[1], y |-> p[2], c |-> val])
DoSub == \E v \in 1..Len(wins), r \in Rects:
   /\ Len(wins) < 3
   /\ st' = Sub(st, v, r)
   /\ LET m == Meet(r, wins[v].rect)
      IN wins' = Append(wins, IF EmptyB(m) THEN [off |-> 0, stride |-> 0, rect |-> <<0, 0, 0, 0>>]
              ELSE [off |-> Offset(wins[v], m[1], m[2]), stride |-> wins[v].stride, rect |-> m])
   /\ UNCHANGED slice
   /\ LogN([a |-> "sub", v |-> v, x |-> 0, y |-> 0, c |-> r])
Finish == /\ EMIT /\ Cnt = DEPTH /\ PrintT(<<"BEH", ToJson([kind |-> KIND, b |-> Parent, h |-> h])>>)
          /\ h' = Append(h, [a |-> "end", v |-> 1, x |-> 0, y |-> 0, c |-> <<0, 0>>]) /\ UNCHANGED <<st, slice, wins>>
Next == (Cnt < DEPTH /\ (DoSet \/ DoSub)) \/ Finish
Spec == Init /\ [][Next]_vars

Refines == \A v \in 1..Len(wins): \A p \in Pts: ImplGet(wins[v], p[1], p[2]) = Get(st, v, p[1], p[2])
ViewsAgree == \A v, u \in 1..Len(wins): \A p \in Pts:
   (InB(p[1], p[2], wins[v].rect) /\ InB(p[1], p[2], wins[u].rect)) => ImplGet(wins[v], p[1], p[2]) = ImplGet(wins[u], p[1], p[2])
WindowsInside == \A v \in 1..Len(wins): EmptyB(wins[v].rect) \/ Meet(wins[v].rect, Parent) = wins[v].rect
OffsetsInside == \A v \in 1..Len(wins): \A p \in Points(wins[v].rect): Offset(wins[v], p[1], p[2]) \in 0..5
OpaqueOwn == \A v \in 1..Len(wins):
   IsOpaque(st, v) = (\A p \in Points(wins[v].rect): PixAlpha(KIND, ImplGet(wins[v], p[1], p[2])) = B)
=============================================================================
