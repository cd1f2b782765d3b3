------------------------------ MODULE TraceXcf ------------------------------
(* Conformance of the xcf package.                                           *)
EXTENDS XcfTree, XcfForm, Json, IOUtils

Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = Start

(* C21: what a file justifies, in KB and ms: a small multiple of its size, of *)
(* the layers it has pointers to and of the tiles it has pointers to         *)
CostOK(e) == e.ms <= 3000 /\ e.kb <= 4096 + 16 * Len(e.b)

(* C17..C21, C24 *)
DecEv(e) ==
  LET f == TLCEval(ReadFile(e.b))
  IN /\ (e.dec = "") = (e.img = 1) /\ (e.dec2 = "") = (e.img2 = 1)      \* an image or an error
     /\ (e.dec = "") = (e.dec2 = "")
     /\ f.s = "ok" => e.dec = "" /\ TreeShown(e.b, f.l, e.out)
     /\ f.s = "no" => e.dec # ""
     /\ e.out2 = e.out
     /\ \A k \in 1..Len(e.acc): e.dec = "" => Len(e.acc[k].c) = Len(e.acc[k].c2) /\ (e.acc[k].c # <<>> => Same(e.acc[k].c, e.acc[k].c2))
     /\ e.diff = 0
     /\ f.cs = "ok" => /\ e.cfg = "" /\ e.wh = <<f.w, f.h>>
                       /\ e.cm = (CASE f.base = 0 -> "nrgba" [] f.base = 1 -> "graya" [] f.base = 2 -> "pal")
                       /\ e.pal = (IF f.base = 2 THEN f.pal ELSE <<>>)
     /\ f.cs = "no" => e.cfg # ""
     /\ e.strict = 1 => (f.s = "bad" => e.dec # "" /\ e.dec2 # "") /\ (f.cs = "bad" => e.cfg # "")
     /\ CostOK(e)

(* C20, C21, C24: files too large to be written down here, described by what they *)
(* are made of n of; "no": must be refused, "yes": must be read, "odd": either       *)
HugeVerdict(e) ==
  CASE e.kind \in {"parens", "openspans", "path"} -> "no"          \* never closed; no such group
    [] e.kind \in {"balanced", "deepspans", "nest"} /\ e.n > 60 /\ ~(e.kind = "nest" /\ e.n <= 1000) -> "odd"
    [] e.kind \in {"number", "attrs"} -> "odd"
    [] OTHER -> "yes"
HugeHolds(e) ==
  CASE e.kind \in {"layers", "nest", "wide", "literal", "escapes"} -> e.got = e.n
    [] e.kind = "spans" -> e.got >= 2 * e.n
    [] e.kind \in {"deepspans", "tags", "values", "word", "attrs", "balanced"} -> e.got >= 1
    [] OTHER -> TRUE
HugeEv(e) ==
  LET v == HugeVerdict(e)
  IN /\ (e.dec = "") = (e.img = 1) /\ e.cfg = ""
     /\ v = "no" => e.dec # ""
     /\ v = "yes" => e.dec = ""
     /\ e.dec = "" => HugeHolds(e)
     /\ e.kb <= 4096 + 1024 * e.size /\ e.ms <= 5000 + 4 * e.size

(* C16, C24 *)
RtEv(e) ==
  /\ e.enc = "" /\ e.holes = 0
  /\ LET f == TLCEval(ReadFile(e.b)) ls == TLCEval(AsImage(e)) u == Union(ls)
     IN /\ f.s = "ok"
        /\ f.base = e.base /\ f.pal = Indexable(e.pal)
        /\ Whole(e) => <<f.w, f.h>> = <<u[3] - u[1], u[4] - u[2]>>
        /\ e.dec = "" /\ e.dec2 = ""
        /\ TreeHeld(e, ls, e.out, TRUE)
        /\ e.strs = StringsOf(ls)
        /\ TreeShown(e.b, f.l, e.out)
        /\ e.out2 = e.out

(* C18, C19, C20: a tree put into a file by somebody else *)
WroteEv(e) ==
  /\ e.dec = "" /\ e.dec2 = ""
  /\ e.cwh = e.wh /\ (e.base = 2 => e.cpal = e.pal)
  /\ TreeHeld(e, e.l, e.out, TRUE)
  /\ e.out2 = e.out
  /\ e.ms <= 20000 /\ e.kb <= 65536 + 64 * e.size

(* C17: the channels of a single tile *)
RleEv(e) ==
  /\ e.enc = "" /\ e.diff = 0
  /\ LET f == TLCEval(ReadFile(e.b))
     IN /\ f.s = "ok" /\ Len(f.l) = 1
        /\ f.l[1].c.k = "xpx"
        /\ LET c == f.l[1].c
           IN (c.comp = 1 /\ Len(c.tiles) = 1) =>
                /\ Len(c.tiles[1].ch) = Len(e.ch)
                /\ \A k \in 1..Len(e.ch): Runs(e.b, c.tiles[1].ch[k], e.ch[k])

(* C22 *)
FaultEv(e) ==
  /\ (e.err = "") = (e.fails = 0)
  /\ e.err = "" => e.holes = 0 /\ ReadFile(e.b).s = "ok"
  /\ e.fails > 0 => e.after = 0 /\ (e.mode # "short" => e.is = 1)

(* C29 *)
FormEv(e) == e.enc = "" /\ WellFormed(e.b)

(* C22: names of a length the format has room for, and not *)
(* 4096 MB is what pointers of 32 bits reach; sizes in MB, the rest is small *)
BigEv(e) ==
  LET total == e.n * e.mb
  IN IF total >= 4096 THEN e.err # "" /\ e.top <= 4096 ELSE e.err = "" /\ e.gap = 0 /\ e.top >= total

(* C25 *)
RECURSIVE Leaf(_, _), Bare(_)
Bare(c) == IF c.k \in {"msk", "txt"} THEN Bare(c.c) ELSE c
Leaf(ls, lp) ==               \* the picture a path leads to: sequence of it, or empty
  IF lp[1] + 1 \notin 1..Len(ls) THEN <<>>
  ELSE LET c == Bare(ls[lp[1] + 1].c)
       IN IF Len(lp) = 1 THEN (IF c.k \in {"win", "xpx"} THEN <<c>> ELSE <<>>)
          ELSE IF c.k = "grp" THEN Leaf(c.l, Tail(lp)) ELSE <<>>
ReadAs(b, c, x, y, is) ==
  LET px == IF c.k = "win" THEN c.c ELSE c u == IF c.k = "win" THEN x + c.dx ELSE x v == IF c.k = "win" THEN y + c.dy ELSE y
  IN InB(u, v, <<0, 0, px.w, px.h>>) /\ InB(x, y, <<0, 0, px.w, px.h>>) => c.k = "win" \/ Same(is, XPixel(b, px, u, v))
ConEv(e) ==
  /\ e.dec = "" /\ e.races = 0 /\ e.wrong = <<>>
  /\ e.kind # "ora" =>
       LET f == TLCEval(ReadFile(e.b))
       IN f.s = "ok" /\ TreeShown(e.b, f.l, e.out)
          /\ \A k \in 1..Len(e.acc):
               LET p == Leaf(f.l, e.acc[k].lp)
               IN p # <<>> => Len(e.acc[k].c) = 4 /\ ReadAs(e.b, p[1], e.acc[k].x, e.acc[k].y, e.acc[k].c)

Judge(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "xdec" -> DecEv(e)
       [] e.op = "xrt" -> RtEv(e)
       [] e.op = "xrle" -> RleEv(e)
       [] e.op = "xfault" -> FaultEv(e)
       [] e.op = "xbig" -> BigEv(e)
       [] e.op = "xhuge" -> HugeEv(e)
       [] e.op = "xwrote" -> WroteEv(e)
       [] e.op = "xform" -> FormEv(e)
       [] e.op = "xcon" -> ConEv(e)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_l
=============================================================================
