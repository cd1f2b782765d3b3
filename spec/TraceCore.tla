------------------------------ MODULE TraceCore -----------------------------
(* Conformance of the limage and lcolor packages: every recorded event must  *)
(* be a step the specification allows.                                       *)
EXTENDS Pix, TLC, Json, IOUtils

Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>
NoImg == [kind |-> "none", mem |-> <<>>, views |-> <<>>]
Init == l = Start /\ st = NoImg

(* ---- stateless events ---- *)
CompEv(e) == CompOK(e.m, e.bn, e.tn, e.r)

(* the alpha rules alone (C03) *)
AlphEv(e) ==
  IF e.m \in Separable \cup Component
  THEN IF e.bn[4] = 0 THEN e.r[4] = 0
       ELSE e.r[4] = e.bn[4] /\ (e.tn[4] = 0 => e.r = e.bn)
  ELSE CompOK(e.m, e.bn, e.tn, e.r)

(* how often Dissolve chose the top in e.n evaluations: within seven standard deviations *)
DissEv(e) ==
  LET p == e.tn[4]
      want == (p * (e.n \div 16)) \div 4096      \* e.n a multiple of 16, at most 8192
      var == (want * (e.n - want)) \div e.n
      dev == Max2(0, Abs(e.ct - want) - 2)
  IN /\ e.cb + e.ct = e.n
     /\ p = 0 => e.ct = 0
     /\ p = M => e.cb = 0
     /\ dev * dev <= 49 * var + 49

(* a layer e.k that dissolves, with those above it out of the way: as often   *)
(* as its own alpha there says, and else what lies below shows                 *)
DlayEv(e) ==
  LET t == e.o.lay[e.k].v b == e.o.acc[e.k + 1]
      same == b[4] = M /\ b[1] = t[1] /\ b[2] = t[2] /\ b[3] = t[3]
  IN /\ Len(e.o.acc) = Len(e.l) + 1 /\ Len(e.o.lay) = Len(e.l) /\ e.o.acc[Len(e.l) + 1][4] = 0
     /\ \A i \in e.k..Len(e.l):
          LET ly == e.l[i] w == e.o.lay[i]
          IN /\ i > e.k => StepOK(ModelOf([k |-> "grp", l |-> e.l]), ly, e.x, e.y, e.o.acc[i + 1], w.v, e.o.acc[i])
             /\ (ly.i = 0 /\ InB(e.x, e.y, ly.b)) =>
                   /\ w.on = 1
                   /\ ScaleOK(w.c.v, (B - ly.t) * E, w.v)
                   /\ ShowOK(ly.c, e.x - ly.b[1], e.y - ly.b[2], w.c)
     /\ \A i \in 1..(e.k - 1): e.o.lay[i].on = 0
     /\ e.l[e.k].m = "Dissolve" /\ e.o.lay[e.k].on = 1
     /\ \/ DissEv([tn |-> t, n |-> e.n, cb |-> e.cb, ct |-> e.ct])
        \/ same /\ e.cb + e.ct = e.n

ColEv(e) == NonOK(e.c, e.nn) /\ PreOK(e.nn, e.pre)

HsvEv(e) ==          \* a colour to hsv and hsl and back
  /\ HSVOK(e.n, e.hsv) /\ HSLOK(e.n, e.hsl)
  /\ e.bv[4] = e.n[4] /\ e.bl[4] = e.n[4]
  /\ NearRGB(e.bv, e.n, HTOL) /\ NearRGB(e.bl, e.n, HTOL)

(* a colour model: e.n, e.pre the argument, e.r the result's fields, e.r2    *)
(* the result converted again                                                *)
ConvEv(e) ==
  /\ e.k = e.model
  /\ e.r2 = e.r
  /\ CASE e.model = "lrgb" -> \A i \in 1..3: To8(e.r[i], e.pre[i])
       [] e.model = "lgraya" -> GrayAOK(e.n, e.r[1], e.r[2])
  /\ (e.c.k = e.model) => e.r = e.c.v

PalEv(e) ==
  /\ NearestOK(e.n, e.pl, e.i)
  /\ \A k \in 1..3: e.cv[k] = e.pl[e.i + 1][k] * E \/ e.n[4] = 0
  /\ e.cv[4] = e.n[4]
  /\ e.cv2 = e.cv
  /\ e.si = e.i /\ To8(e.sa, e.n[4])

AtEv(e) == \A p \in 1..Len(e.pts): ShowOK([k |-> "grp", l |-> e.l], e.pts[p].x, e.pts[p].y, e.pts[p].o)

RECURSIVE MeetAll(_, _)
MeetAll(b, rs) == IF rs = <<>> THEN b ELSE MeetAll(LET q == Meet(b, rs[1]) IN IF EmptyB(q) THEN <<0, 0, 0, 0>> ELSE q, Tail(rs))
SubEv(e) ==
  /\ Len(e.bs) = Len(e.l) /\ Len(e.attr) = Len(e.l)
  /\ \A i \in 1..Len(e.l):
       /\ SameB(e.bs[i], MeetAll(e.l[i].b, e.rs))
       /\ e.attr[i] = [n |-> e.l[i].n, m |-> e.l[i].m, i |-> e.l[i].i, t |-> e.l[i].t]
  /\ \A p \in 1..Len(e.pts): e.pts[p].su = e.pts[p].be /\ e.pts[p].af = e.pts[p].be

(* what images say of themselves, before and after cropping *)
RECURSIVE CropBy(_, _)
CropBy(ls, rs) == IF rs = <<>> THEN ls ELSE CropBy(CropAll(ls, rs[1]), Tail(rs))
MetaEv(e) == Tells([k |-> "grp", l |-> CropBy(e.l, e.rs)], e.o)
(* what modes are called: as published; those that show as Normal may be called so *)
ModeNames == <<"Normal", "Dissolve", "Behind", "Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract", "Darken Only", "Lighten Only",
  "Hue", "Saturation", "Color", "Value", "Divide", "Dodge", "Burn", "Hard Light", "Soft Light", "Grain Extract", "Grain Merge", "Luminosity", "Plus",
  "Destination In", "Destination Out", "Source Atop", "Destination Atop">>
NameEv(e) ==
  /\ Len(e.names) >= Len(ModeNames)
  /\ \A i \in 1..Len(e.names): IF i <= Len(ModeNames) THEN e.names[i] = ModeNames[i]
                                 ELSE e.names[i] = "Normal" \/ \A k \in 1..Len(e.names): e.names[k] = e.names[i] => k = i

StrEv(e) ==
  LET RECURSIVE Cat(_)
      Cat(i) == IF i > Len(e.parts) THEN "" ELSE e.parts[i] \o Cat(i + 1)
  IN e.r = Cat(1)

(* ---- the pixel image, a stateful session ---- *)
Area(b) == <<b[1] - 1, b[2] - 1, b[3] + 1, b[4] + 1>>
(* the snapshot of view v: raw values and shown colours of every point of    *)
(* the parent's bounds and one beyond, row by row                            *)
Snap(s, pl, e) ==
  LET ar == Area(s.views[1]) w == ar[3] - ar[1]
  IN /\ Len(e.snap) = Len(s.views)
     /\ \A v \in 1..Len(s.views):
          /\ SameB(e.snap[v].b, s.views[v])
          /\ e.opq = 1 => ((e.snap[v].opq = 1) = IsOpaque(s, v))
          /\ \A p \in Points(ar):
               LET i == (p[2] - ar[2]) * w + (p[1] - ar[1]) + 1
                   g == Get(s, v, p[1], p[2])
               IN /\ e.snap[v].raw[i] = g
                  /\ InB(p[1], p[2], s.views[v]) => Same(e.snap[v].shown[i], ShownAs(s.kind, pl, g))

PixStep(e) ==    \* the state after the event
  CASE e.a = "new" -> NewImg(e.kind, e.b)
    [] e.a = "raw" -> Put(st, e.v, e.x, e.y, e.val)
    [] e.a = "col" -> IF InB(e.x, e.y, st.views[e.v]) THEN Put(st, e.v, e.x, e.y, e.got) ELSE st
    [] e.a = "back" -> st
    [] e.a = "sub" -> Sub(st, e.v, e.r)
PixEv(e) ==
  /\ e.a = "col" /\ InB(e.x, e.y, st.views[e.v]) => StoredOK(st.kind, e.pl, e.n, e.pre, e.got)
  /\ Snap(PixStep(e), e.pl, e)

(* a large pixel image: all that is done to it, and what there is at the end *)
RECURSIVE BigRun(_, _, _)
BigRun(s, e, k) ==
  IF k > Len(e.ops) THEN s
  ELSE LET o == e.ops[k]
       IN BigRun(IF o.a = "sub" THEN Sub(s, o.v, o.r) ELSE IF o.val = <<>> THEN s ELSE FillBig(s, o.v, o.r, o.val), e, k + 1)
BigEv(e) ==
  LET s == BigRun(NewBig(e.kind, e.b), e, 1)
  IN /\ \A k \in 1..Len(e.ops): LET o == e.ops[k] IN
          (o.a = "col" /\ ~EmptyB(Meet(o.r, s.views[o.v]))) => o.val # <<>> /\ StoredOK(e.kind, e.pl, o.n, o.pre, o.val)
     /\ Len(e.views) = Len(s.views)
     /\ \A v \in 1..Len(s.views):
          LET w == e.views[v] IN
          /\ SameB(w.b, s.views[v])
          /\ HistOK(s, v, w.hist)
          /\ e.opq = 1 => ((w.opq = 1) = IsOpaqueBig(s, v))
          /\ \A p \in 1..Len(w.pts):
               LET g == GetBig(s, v, w.pts[p].x, w.pts[p].y)
               IN /\ w.pts[p].raw = g
                  /\ InB(w.pts[p].x, w.pts[p].y, s.views[v]) => Same(w.pts[p].shown, ShownAs(e.kind, e.pl, g))

StepOKCore(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "comp" -> CompEv(e)
       [] e.op = "alph" -> AlphEv(e)
       [] e.op = "diss" -> DissEv(e)
       [] e.op = "col" -> ColEv(e)
       [] e.op = "hsv" -> HsvEv(e)
       [] e.op = "conv" -> ConvEv(e)
       [] e.op = "pal" -> PalEv(e)
       [] e.op = "dlay" -> DlayEv(e)
       [] e.op = "at" -> AtEv(e)
       [] e.op = "sub" -> SubEv(e)
       [] e.op = "meta" -> MetaEv(e)
       [] e.op = "names" -> NameEv(e)
       [] e.op = "str" -> StrEv(e)
       [] e.op = "pix" -> PixEv(e)
       [] e.op = "big" -> BigEv(e)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN /\ IF StepOKCore(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ st' = IF e.op = "pix" /\ e.panic = "" THEN PixStep(e) ELSE st
Spec == Init /\ [][Next]_vars
=============================================================================
