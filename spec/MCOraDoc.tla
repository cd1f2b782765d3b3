------------------------------ MODULE MCOraDoc ------------------------------
(* Every short token stream, well formed or not, read two ways: by the       *)
(* meaning of its tree (Ora.tla) and by a reader that takes one token at a   *)
(* time.  They must agree on acceptance and on the shape decoded.  With EMIT *)
(* the streams are written out and fed to the real decoder.                  *)
EXTENDS Ora, Json
CONSTANTS LEN, EMIT, RICH

src == <<[n |-> "a.png", ok |-> 1, c |-> [k |-> "px", f |-> "nrgba", w |-> 2, h |-> 1, p |-> <<<<1, 0, 1, 1>>, <<0, 1, 0, 1>>>>]],
         [n |-> "bad.png", ok |-> 0, c |-> [k |-> "px", f |-> "nrgba", w |-> 1, h |-> 1, p |-> <<<<1, 0, 1, 1>>>>]]>>
O(e, a) == [t |-> "o", e |-> e, a |-> a]
Bad(k) == [k |-> k, v |-> "1q", n |-> 0, d |-> 1, ok |-> 0]
S(v) == StrA("src", v)
Rich == IF RICH THEN
  {O("image", <<NumA("w", 4), Bad("h")>>), O("stack", <<NumA("x", 1), StrA("visibility", "hidden")>>),
   O("layer", <<S("a.png"), Bad("x")>>), O("layer", <<NumA("x", 3), S("a.png"), StrA("composite-op", "svg:plus")>>),
   O("layer", <<S("bad.png")>>), O("stack", <<Bad("opacity")>>), [t |-> "x"], O("filter", <<Bad("x")>>),
   O("layer", <<S("a.png"), [k |-> "opacity", v |-> "", n |-> 1, d |-> 2, ok |-> 1], NumA("y", -1)>>)}
  ELSE {}
Opens == {O("image", <<NumA("w", 4), NumA("h", 2)>>), O("image", <<NumA("w", 4)>>), O("stack", <<>>),
          O("layer", <<S("a.png")>>), O("layer", <<S("no.png")>>), O("meta", <<>>)} \cup Rich

VARIABLES ts, rd, done
Start == [ph |-> "pre", open |-> <<>>, skip |-> 0, shape |-> <<>>, extra |-> FALSE]
Init == ts = <<>> /\ rd = Start /\ done = FALSE

AttrsReadable(a) == NumOK(a, "x") /\ NumOK(a, "y") /\ NumOK(a, "opacity")
(* the reader *)
Push(r, e) == [r EXCEPT !.open = <<e>> \o @]
Err(r) == [r EXCEPT !.ph = "err"]
Step(r, k) ==
  IF r.ph = "err" THEN r
  ELSE CASE k.t = "x" -> r
    [] k.t = "b" -> Err(r)
    [] k.t = "o" ->
         IF r.skip > 0 THEN Push([r EXCEPT !.skip = @ + 1], k.e)
         ELSE (CASE r.ph = "pre" -> IF IsImage(k) THEN Push([r EXCEPT !.ph = "image"], k.e) ELSE Err(r)
                [] r.ph = "image" -> IF k.e = "stack" THEN Push([r EXCEPT !.ph = "stack"], k.e)
                                     ELSE Push([r EXCEPT !.skip = 1], k.e)
                [] r.ph = "stack" ->
                     (CASE k.e = "stack" -> IF AttrsReadable(k.a) THEN Push([r EXCEPT !.shape = @ \o <<"(">>], k.e) ELSE Err(r)
                       [] k.e = "layer" -> IF AttrsReadable(k.a) /\ Src(src, Text(k.a, "src", "")) # {}
                                           THEN Push([r EXCEPT !.shape = @ \o <<"L">>, !.skip = 1], k.e) ELSE Err(r)
                       [] OTHER -> Push([r EXCEPT !.skip = 1], k.e))
                [] r.ph = "post" -> Push([r EXCEPT !.skip = 1, !.extra = @ \/ k.e = "stack"], k.e)
                [] r.ph = "end" -> Push([r EXCEPT !.skip = 1, !.extra = TRUE], k.e))
    [] k.t = "c" ->
         IF r.open = <<>> \/ r.open[1] # k.e THEN Err(r)
         ELSE LET s == [r EXCEPT !.open = Tail(@)]
              IN IF r.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
                 ELSE CASE r.ph = "image" -> Err(r)            \* no stack
                        [] r.ph = "stack" -> IF Len(s.open) = 1 THEN [s EXCEPT !.ph = "post"]
                                             ELSE [s EXCEPT !.shape = @ \o <<")">>]
                        [] r.ph = "post" -> [s EXCEPT !.ph = "end"]
                        [] OTHER -> Err(r)
Accepts(r) == r.ph = "end" /\ r.open = <<>>

Closes == {[t |-> "c", e |-> e]: e \in {IF rd.open = <<>> THEN "stack" ELSE rd.open[1], "layer"}}
Add(k) == ts' = Append(ts, k) /\ rd' = Step(rd, k) /\ done' = FALSE
Next == \/ ~done /\ Len(ts) < LEN /\ rd.ph # "err" /\ \E k \in Opens \cup Closes:
           (* broken documents end the run, so long ones are rare unless breaking is *)
           (EMIT => /\ Step(rd, k).ph # "err" \/ Len(ts) % 7 = 6
                    /\ k.t = "o" => /\ Len(rd.open) + 2 <= LEN - Len(ts)
                                    /\ Len(rd.open) <= 4 /\ rd.skip <= 1
                    /\ rd.skip > 0 => k.t # "x"
                    /\ rd.ph \in {"pre", "image", "post"} /\ rd.skip = 0 => (IF k.t = "x" THEN FALSE ELSE k.e \in {"image", "stack", "meta"})) /\ Add(k)
        \/ EMIT /\ ~done /\ Len(ts) > 0 /\ (Len(ts) = LEN \/ rd.ph \in {"err", "end"}) /\ done' = TRUE /\ UNCHANGED <<ts, rd>>
           /\ PrintT(<<"BEH", ToJson([toks |-> ts, srcs |-> src])>>)
Spec == Init /\ [][Next]_<<ts, rd, done>>

RECURSIVE Shape(_)
Shape(ks) == IF ks = <<>> THEN <<>>
  ELSE (CASE ks[1].e = "stack" -> <<"(">> \o Shape(ks[1].k) \o <<")">>
          [] ks[1].e = "layer" -> <<"L">>
          [] OTHER -> <<>>) \o Shape(Tail(ks))
V == DocVerdict(ts, src)
SameVerdict == /\ (V = "no") = ~Accepts(rd)
               /\ (V = "either") = (Accepts(rd) /\ rd.extra)
SameShape == V # "no" => rd.shape = Shape(RootOf(ts).k)
ConfigFirst == V # "no" => ConfigOK(ts)
ConfigPrefix == (Len(ts) > 0 /\ ConfigOK(SubSeq(ts, 1, Len(ts) - 1))) => ConfigOK(ts)
(* every proper prefix of an acceptable document without trailing matter is refused *)
PrefixRefused == (V # "no" /\ ~rd.extra /\ ts[Len(ts)].t = "c") => DocVerdict(SubSeq(ts, 1, Len(ts) - 1), src) = "no"
=============================================================================
