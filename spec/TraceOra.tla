------------------------------ MODULE TraceOra ------------------------------
(* Conformance of the ora package: every recorded experiment must be one the *)
(* specification allows.                                                     *)
EXTENDS Ora, Json, IOUtils

Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = Start

Whole(e) == e.kind \in {"image", "pimage"}
(* what a plain image or a single layer becomes: its content as one layer *)
Single(e) == LET ly == e.l[1]
             IN [ly EXCEPT !.b = <<0, 0, @[3] - @[1], @[4] - @[2]>>]
AsImage(e) == IF Whole(e) THEN e.l
              ELSE IF e.kind \in {"layer", "player"} THEN <<Single(e)>>
              ELSE <<[Single(e) EXCEPT !.n = "", !.m = "Normal", !.i = 0, !.t = 0]>>

(* C11 *)
RtEv(e) ==
  /\ e.enc = "" /\ e.dec = "" /\ e.enc2 = ""
  /\ IF Whole(e) \/ e.kind \in {"layer", "player"} THEN SameTree(Written(AsImage(e)), e.out)
     ELSE /\ Len(e.out) = 1
          /\ e.out[1].b = Single(e).b
          /\ Len(e.pic) > 0
          /\ Held(e.l) = e.l =>      \* other modes become Normal, which changes the picture
             \A p \in 1..Len(e.pic): LET q == e.pic[p] IN Close(<<q[3], q[4], q[5], q[6]>>, <<q[7], q[8], q[9], q[10]>>)
  /\ e.out2 = e.out

(* C12 *)
Count(e, n) == Cardinality({i \in 1..Len(e.ents): e.ents[i].n = n})
EncEv(e) ==
  LET ls == Written(AsImage(e))
      p == Parsed(e.toks)
  IN /\ e.enc = "" /\ e.zip = "" /\ e.doc = ""
     /\ Len(e.ents) > 0 /\ e.ents[1].n = "mimetype" /\ e.ents[1].store = 1 /\ e.ents[1].mime = 1
     /\ Count(e, "stack.xml") = 1 /\ Count(e, "mergedimage.png") = 1 /\ Count(e, "Thumbnails/thumbnail.png") = 1
     /\ p.ok /\ Len(p.ks) = 1 /\ IsImage(p.ks[1])
     /\ Num(p.ks[1].a, "w") = e.wh[1] /\ Num(p.ks[1].a, "h") = e.wh[2]
     /\ LET u == Union(AsImage(e)) IN e.wh = <<u[3] - u[1], u[4] - u[2]>>
     /\ Len(Stacks(p.ks[1])) = 1
     /\ LET root == Stacks(p.ks[1])[1]
        IN /\ IF Whole(e) THEN Says(root.k, ls, e.srcs)
              ELSE Len(Relevant(root.k)) = 1
           /\ LET s == Sources(root.k)
              IN /\ \A i \in 1..Len(s): Cardinality({j \in 1..Len(e.srcs): e.srcs[j].n = s[i]}) = 1 /\ Count(e, s[i]) = 1
                 /\ \A i, j \in 1..Len(s): s[i] = s[j] => i = j
     /\ e.msz = e.wh /\ Len(e.merged) > 0
     /\ \A k \in 1..Len(e.merged): LET q == e.merged[k] IN Close(<<q[3], q[4], q[5], q[6]>>, <<q[7], q[8], q[9], q[10]>>)
     /\ ThumbSizeOK(e.wh[1], e.wh[2], e.tsz[1], e.tsz[2])
     /\ e.thumb = 1 =>
          /\ Len(e.cells) > 0
          /\ \A k \in 1..Len(e.cells):
               LET c == e.cells[k]
               IN /\ c.c = Cell(e.wh[1], e.wh[2], e.tsz[1], e.tsz[2], c.p[1], c.p[2])
                  /\ \A i \in 1..4: c.lo[i] - 2 * Step8 <= c.is[i] /\ c.is[i] <= c.hi[i] + 2 * Step8

(* C13, C14 *)
DocEv(e) ==
  LET mime == e.mime \in {"ok", "none", "deflated"}
      there == mime /\ e.stack = 1
  IN /\ (e.dec = "") = (e.img = 1)             \* an image or an error, never both, never neither
     /\ (e.dec = "") => (e.cfg = "")
     /\ ~there => e.cfg # ""
     /\ e.raw # "" \/ ~there \/
        LET v == DocVerdict(e.toks, e.srcs) c == ConfigOK(e.toks)
        IN /\ (e.cfg = "") = c
           /\ c => LET a == e.toks[FirstOpen(e.toks, 1)].a IN e.wh = <<Num(a, "w"), Num(a, "h")>>
           /\ v = "no" => e.dec # ""
           /\ v = "yes" => e.dec = ""
           /\ (e.dec = "") => StackShown(RootOf(e.toks).k, e.out, e.srcs, CanvasOf(e.toks), 0, 0, 0, 0)

(* C13, C14: documents too large to be written down here, of n stacks, layers or *)
(* unknown elements; very deep ones may be refused, but cleanly                   *)
Deep(e) == e.kind \in {"nest", "nestnest", "other", "inlayer"} /\ e.n > 1000
HugeEv(e) ==
  /\ (e.dec = "") = (e.img = 1) /\ e.cfg = ""
  /\ e.cut = 1 => e.dec # ""
  /\ (e.cut = 0 /\ ~Deep(e) /\ e.kind # "attrs") => e.dec = ""
  /\ e.dec = "" => e.got = IF e.kind \in {"nest", "nestnest", "layers", "groups"} THEN e.n ELSE 1
  /\ e.ms <= 5000 + e.n \div 5

(* C15 *)
(* a writer that takes a part only, and says nothing, may be given the rest  *)
FaultEv(e) ==
  /\ e.err = "" => (e.fails = 0 \/ e.mode = "short") /\ e.dec = "" /\ e.same = 1 /\ e.bad = 0
  /\ (e.fails = 0 /\ e.bad = 0) => e.err = ""

Judge(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "ort" -> RtEv(e)
       [] e.op = "oenc" -> EncEv(e)
       [] e.op = "odoc" -> DocEv(e)
       [] e.op = "ohuge" -> HugeEv(e)
       [] e.op = "ofault" -> FaultEv(e)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_l
=============================================================================
